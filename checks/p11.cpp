// P11: a failed compilation leaves the state as it was.
#include <set>
#include "stdref.hpp"
#include "corpus.hpp"
#include "gen.hpp"
using namespace gen;
static const std::vector<string> &U = corpus::units();
static std::vector<std::vector<string>> T;
static const string BASE[] = {
    "struct Ok { a: int s: str }\nfunc okf(x: int): int { y := x * 2 return y + 1 }\nOKC :: 7 OKS :: \"okc\"\nuse array(\"int\") as oki\nok1 := okf(3) ok2 := new Ok{ok1, \"text\"} ok3 := oki(1, 2, 3) ok4 := \"text\"\n"
    "for ok5 := 0; ok5 < 3; ok5 += 1 { out(ok5, ok2.a, ok3[ok5]) ok2.a = okf(ok2.a) }\nout(OKC, OKS, ok2, ok4)\n",
    "out(1)",
    "func okf(x: int): int { if x > 3 { return x } return okf(x + 1) } struct Ok { next: any n: int } ok2 := new Ok{null, 1} ok2.next = ok2 while ok2.n < 5 { ok2.n = okf(ok2.n) + 1 out(ok2.n) }",
    "",      // nothing compiled before
};
static const int NB = 4;
// What a host sees of a name.
static string lookup(Tiny_State *s, const string &n) {
    string o = n + " g" + I(Tiny_GetGlobalIndex(s, n.c_str())) + " f" + I(Tiny_GetFunctionIndex(s, n.c_str()));
    auto sym = [&](const Tiny_Symbol *y) {
        if (!y) { o += " -"; return; }
        o += " " + I(y->type);
        if (y->type == TINY_SYM_TAG_STRUCT) { o += y->sstruct.defined ? "d" : "u"; o += I((long)Tiny_SymbolArrayCount(y->sstruct.fields)); }
        if (y->type == TINY_SYM_FUNCTION) o += "/" + I((long)Tiny_SymbolArrayCount(y->func.args)) + "/" + (y->func.returnTag ? y->func.returnTag->name : "?");
        if (y->type == TINY_SYM_FOREIGN_FUNCTION) o += "/" + I((long)Tiny_SymbolArrayCount(y->foreignFunc.argTags));
    };
    sym(Tiny_FindTypeSymbol(s, n.c_str()));
    sym(Tiny_FindFuncSymbol(s, n.c_str()));
    sym(Tiny_FindConstSymbol(s, n.c_str()));
    return o + "\n";
}
static std::set<string> names(const string &src) {
    std::set<string> o;
    for (auto &t : corpus::tokens(src)) {
        if (isalpha((unsigned char)t[0])) { o.insert(t); o.insert(t + "?"); o.insert(t + "_to_json"); o.insert(t + "_push"); o.insert(t + "_call"); }
        if (t[0] == '"' && t.size() > 2) o.insert(t.substr(1, t.size() - 2));
    }
    for (auto x : {"Ok", "okf", "OKC", "oki", "ok1", "ok2", "oki_push", "delegate_int_int", "delegate_int_int_call", "Ok_to_json"}) o.insert(x);
    return o;
}
static string runAll(df::Impl &I_) {
    if (I_.threadUp) { Tiny_DestroyThread(&I_.t); I_.threadUp = false; }
    for (auto n : I_.log.nats) delete n;
    I_.log.nats.clear(); I_.log.out.clear(); I_.log.nextNat = 1;
    I_.start();
    if (!I_.run(200000)) return I_.log.out + " (does not end)";
    mc::noteRun();
    return I_.log.out;
}
// The behaviour without the failed compilation, remembered per base and later source.
struct Want { bool ok; string err, out, view; };
static string viewOf(Tiny_State *s, const string &src);
static const Want &want(int b, const string &later) {
    static std::map<std::pair<int, string>, Want> memo;
    auto k = std::make_pair(b, later);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    df::Impl I2(df::stdOpt().binder);
    if (!BASE[b].empty() && !I2.compile(BASE[b])) mc::fail("base rejected: %s", I2.err.c_str());
    Want w;
    w.ok = later.empty() ? true : I2.compile(later, "later");
    w.err = I2.err;
    if (w.ok) { w.out = runAll(I2); w.view = viewOf(I2.s, later); }
    return memo[k] = w;
}
static string viewOf(Tiny_State *s, const string &src) { string o; for (auto &n : names(src)) o += lookup(s, n); return o; }
static string lookupWant(int b, const string &name) {
    static std::map<std::pair<int, string>, string> memo;
    static df::Impl *S[NB];
    if (!S[b]) { S[b] = new df::Impl(df::stdOpt().binder); if (!BASE[b].empty() && !S[b]->compile(BASE[b])) mc::fail("base rejected"); }
    auto k = std::make_pair(b, name);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    return memo[k] = lookup(S[b]->s, name);
}
static void attempt(int b, const std::vector<string> &failing, const std::vector<string> &later, int suspend = -1) {
    df::Impl X(df::stdOpt().binder);
    if (!BASE[b].empty() && !X.compile(BASE[b])) mc::fail("base rejected");
    if (suspend >= 0) {
        X.start();
        for (int k = 0; k < suspend; ++k) Tiny_ExecuteCycle(&X.t);
    }
    for (auto &f : failing) {
        if (X.compile(f, "failing")) { mc::noteSkip(); return; }      // only failing compilations are of interest
        mc::noteTrace();
        if (X.err.empty()) mc::fail("fails without a message\n%s", f.c_str());
        mc::noteState(mc::hash(X.err));
    }
    string all;
    for (auto &f : failing) all += f + "\n----\n";
    for (auto &n : names(all)) {
        string got = lookup(X.s, n), exp = lookupWant(b, n);
        if (got != exp) mc::fail("after a failed compilation the host sees %s instead of %s--- failed source\n%s\n--- base\n%s", got.c_str(), exp.c_str(), all.c_str(), BASE[b].c_str());
    }
    if (suspend >= 0) {
        if (!X.run(200000)) mc::fail("the suspended thread does not end after\n%s", all.c_str());
        const Want &w = want(b, "");
        if (X.log.out != w.out) mc::fail("a thread suspended during a failed compilation behaves differently %s\n%s", df::differ(w.out, X.log.out).c_str(), all.c_str());
    }
    if (!BASE[b].empty()) {
        const Want &w = want(b, "");
        string got = runAll(X);
        if (got != w.out) mc::fail("after a failed compilation the program runs differently %s\n--- failed source\n%s", df::differ(w.out, got).c_str(), all.c_str());
    }
    for (auto &l : later) {
        const Want &w = want(b, l);
        bool ok = X.compile(l, "later");
        mc::noteTrace();
        if (ok != w.ok || X.err != w.err) mc::fail("after a failed compilation a later one is %s%s but without the failure %s%s\n--- failed source\n%s\n--- later source\n%s", ok ? "accepted" : "rejected: ", X.err.c_str(), w.ok ? "accepted" : "rejected: ", w.err.c_str(), all.c_str(), l.c_str());
        if (ok) {
            string got = runAll(X);
            if (got != w.out) mc::fail("after a failed compilation a later program runs differently %s\n--- failed source\n%s\n--- later source\n%s", df::differ(w.out, got).c_str(), all.c_str(), l.c_str());
            string v = viewOf(X.s, l);
            if (v != w.view) mc::fail("after a failed compilation a later program declares\n%s\ninstead of\n%s\n--- failed source\n%s\n--- later source\n%s", v.c_str(), w.view.c_str(), all.c_str(), l.c_str());
            break;       // the expectation of the next ones is without this one
        }
    }
}
static const char *TOK[] = {"(", ")", "{", "}", ",", "x", "1", "\"s\"", "func", "struct", ":", "\"open", "return"};
static const int NTOK = 13;
static uint64_t mutCount() { uint64_t n = 0; for (auto &t : T) n += t.size() * (2 + 2 * NTOK); return n; }
static string mutAt(uint64_t i, size_t *unit) {
    size_t u = 0;
    while (i >= T[u].size() * (2 + 2 * NTOK)) { i -= T[u].size() * (2 + 2 * NTOK); ++u; }
    mc::Digits d(i);
    int how = (int)d(2 + 2 * NTOK);
    size_t at = (size_t)d.v;
    auto t = T[u];
    if (unit) *unit = u;
    if (how == 0) t.resize(at);
    else if (how == 1) t.erase(t.begin() + at);
    else if (how < 2 + NTOK) t.insert(t.begin() + at, TOK[how - 2]);
    else t[at] = TOK[how - 2 - NTOK];
    return corpus::joined(t);
}
// Errors found by each phase, in each position.
static const char *ERR[] = {"zz = 1", "zz(1)", "z9: int = \"s\"", "z8 := new Zz{1}", "func z7(a: Zz) { }", "func z6(): int { return \"s\" }", "break", "use nomacro(\"x\")", "use json(\"Zz\")", "use array(\"Zz\") as zza", "use delegate(\"zz\") as zzd",
                            "struct Ze { a: int a: int }", "okf(\"s\")", "if 1 { }", "z5 := z5", "{ { z4 := 1 } z3 := \"unterminated", "func z2() { while true { z1 := z0 } }", "out(1)) }", "@", "struct Zu { n: Zn } zq := 1", "use json(\"Zj\") struct Zj { a: nat }", "ZC :: 1 ZC :: 2"};
static const int NERR = 22;
static string errAt(uint64_t i, size_t *a, size_t *b) {
    mc::Digits d(i);
    string e = ERR[d(NERR)];
    *a = (size_t)d(U.size());
    int where = (int)d(4);
    *b = (*a + 7) % U.size();
    switch (where) {
        case 0: return e + "\n" + U[*a];
        case 1: return U[*a] + "\n" + e;
        case 2: return U[*a] + "\n" + e + "\n" + U[*b];
        default: return U[*a] + "\n" + U[*b] + "\n" + e;
    }
}
// Types a bound function refers to which nothing defines yet; a failing source defines some of them.
static void undefined(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(5) + 1;
    unsigned mask = (unsigned)d(32) % (1u << n);
    int how = (int)d(4), err = (int)d(NERR), after = (int)d(3);
    string f;
    for (int k = 0; k < n; ++k) if (mask >> k & 1) f += how == 0 ? "struct U" + I(k) + " { a: int s: str }\n" : how == 1 ? "use array(\"int\") as U" + I(k) + "\n" : k % 2 == (how == 2) ? "struct U" + I(k) + " { a: U" + I((k + 1) % n) + " }\n" : "use array(\"str\") as U" + I(k) + "\n";
    f += ERR[err];
    auto binder = [n](Tiny_State *s) {
        df::stdOpt().binder(s);
        for (int k = 0; k < n; ++k) Tiny_BindFunction(s, ("u" + I(k) + "(U" + I(k) + "): int").c_str(), [](Tiny_StateThread *, const Tiny_Value *, int) -> Tiny_Value { return Tiny_NewInt(4); });
    };
    df::Impl X(binder), W(binder);
    if (X.compile(f, "failing")) { mc::noteSkip(); return; }
    string l;
    for (int k = 0; k < n; ++k) {
        string u = "U" + I(k);
        if (lookup(X.s, u) != lookup(W.s, u)) mc::fail("after a failed compilation the host sees %s instead of %s%s", lookup(X.s, u).c_str(), lookup(W.s, u).c_str(), f.c_str());
        if (after == 0) l += "struct " + u + " { b: float }\nv" + I(k) + " := new " + u + "{1.5} out(v" + I(k) + ".b, u" + I(k) + "(v" + I(k) + "))\n";
        if (after == 1) l += "use array(\"float\") as " + u + "\nv" + I(k) + " := " + u + "(1.5) out(v" + I(k) + "[0], u" + I(k) + "(v" + I(k) + "))\n";
    }
    if (after == 2) l = "x := new U" + I(err % n) + "{1}";
    bool a = X.compile(l, "later"), b = W.compile(l, "later");
    if (a != b || X.err != W.err) mc::fail("after a failed compilation a later one is %s%s but without the failure %s%s\n--- failed source\n%s\n--- later source\n%s", a ? "accepted" : "rejected: ", X.err.c_str(), b ? "accepted" : "rejected: ", W.err.c_str(), f.c_str(), l.c_str());
    if (a) { string x = runAll(X), y = runAll(W); if (x != y) mc::fail("after a failed compilation a later program runs differently %s\n--- failed source\n%s\n--- later source\n%s", df::differ(y, x).c_str(), f.c_str(), l.c_str()); }
    mc::noteTrace();
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        for (auto &u : U) T.push_back(corpus::tokens(u));
        mc::family("phases", NERR * U.size() * 4 * NB, [](uint64_t i) {
            size_t a, b;
            string f = errAt(i / NB, &a, &b);
            attempt((int)(i % NB), {f}, {U[a], U[b]});
        }, [](uint64_t i) { size_t a, b; return errAt(i / NB, &a, &b); });
        mc::family("twice", NERR * NERR * U.size(), [](uint64_t i) {
            mc::Digits d(i);
            string e1 = ERR[d(NERR)], e2 = ERR[d(NERR)];
            size_t u = (size_t)d(U.size());
            attempt(0, {U[u] + "\n" + e1, e2 + "\n" + U[u]}, {U[u] + " out(ok1, okf(2))"});
            if (i % 3 == 0) attempt(3, {U[u] + "\n" + e1, e2 + "\n" + U[u]}, {U[u] + " out(1)"});
        });
        mc::family("suspended", NERR * 4 * 120, [](uint64_t i) {
            size_t a, b;
            string f = errAt((i % NERR) + NERR * ((i / NERR * 5) % U.size()) + NERR * U.size() * ((i / NERR) % 4), &a, &b);
            attempt((i / NERR) % 4 == 3 ? 2 : 0, {f}, {U[a]}, (int)(i / NERR / 4) * 2);
        });
        mc::family("mutations", mutCount(), [](uint64_t i) {
            size_t u;
            string f = mutAt(i, &u);
            attempt((int)(i % NB), {f}, {U[u]});
        }, [](uint64_t i) { return mutAt(i, nullptr); });
        mc::family("undefined", 5 * 32 * 4 * NERR * 3, undefined);
        // failing sources full of new names and strings, again and again
        mc::family("exhaust", 40, [](uint64_t i) {
            std::vector<string> f;
            for (int k = 0; k < 60; ++k) {
                string s;
                for (int m = 0; m < 60; ++m) {
                    string x = I(k) + "q" + I(m);
                    s += i % 4 == 0 ? "v" + x + " := \"str" + x + "\"\n" : i % 4 == 1 ? "func f" + x + "(a: int): int { return a }\n" : i % 4 == 2 ? "struct S" + x + " { a: int }\n" : "K" + x + " :: \"k" + x + "\"\n";
                }
                f.push_back(s + ERR[(i / 4 + k) % NERR]);
            }
            attempt((int)(i % NB), f, {U[i % U.size()]});
        });
        // the names of the failed source are free again, whatever they were
        mc::family("names", 7 * 7 * NERR * 2, [](uint64_t i) {
            mc::Digits d(i);
            static const char *D[] = {"nm := 1 out(nm)", "func nm(a: int): int { return a } out(nm(1))", "struct nm { q: int } nn := new nm{1} out(nn.q)", "nm :: 5 out(nm)", "use array(\"int\") as nm nn := nm(1) out(nn[0])", "struct P { a: int } use json(\"P\") out(P_to_json(new P{1}))", "func h(x: int): int { return x } use delegate(\"h\") as nm nn := nm() out(delegate_int_int_call(nn, 2))"};
            string a = D[d(7)], b = D[d(7)], e = ERR[d(NERR)];
            if (i % 5 == 0) attempt(3, {a + "\n" + e}, {b});
            attempt(d(2) ? 0 : 2, {a + "\n" + e}, {b});
        });
    });
}
