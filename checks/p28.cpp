// P28: host lookups reflect exactly the declared names, and globals are shared with the host.
#include "stdref.hpp"
#include "gen.hpp"
#include "corpus.hpp"
#include <set>
using namespace gen;
using ref::Type;
static df::Opt opt;
// ---------------------------------------------------------------- what a name is, on both sides
static string typeI(const Tiny_Symbol *t) { return t && t->name ? t->name : "?"; }
static string floatText(double f) { char b[40]; snprintf(b, sizeof b, "%.17g", f); return b; }
static string seenI(Tiny_State *s, const string &n, bool generated) {
    string o = Tiny_GetGlobalIndex(s, n.c_str()) >= 0 ? "global " : "";
    if (!generated) o += Tiny_GetFunctionIndex(s, n.c_str()) >= 0 ? "index " : "";
    if (const Tiny_Symbol *y = Tiny_FindFuncSymbol(s, n.c_str())) {
        o += "function ";
        if (y->name != n) o += string("named ") + y->name;
        if (y->type == TINY_SYM_FUNCTION) {
            o += generated ? "(" : "script(";
            for (size_t k = 0; k < Tiny_SymbolArrayCount(y->func.args); ++k) o += (k ? ", " : "") + string(generated ? "" : string(y->func.args[k]->name) + ": ") + typeI(y->func.args[k]->var.tag);
            o += "): " + typeI(y->func.returnTag) + " ";
        } else if (y->type == TINY_SYM_FOREIGN_FUNCTION) {
            o += generated ? "(" : "bound(";
            for (size_t k = 0; k < Tiny_SymbolArrayCount(y->foreignFunc.argTags); ++k) o += (k ? ", " : "") + typeI(y->foreignFunc.argTags[k]);
            o += y->foreignFunc.varargs ? "...): " : "): ";
            o += typeI(y->foreignFunc.returnTag) + " ";
        } else o += "? ";
    }
    if (const Tiny_Symbol *y = Tiny_FindTypeSymbol(s, n.c_str())) {
        if (y->name != n) o += string("named ") + y->name;
        if (y->type == TINY_SYM_TAG_STRUCT) {
            o += "struct{";
            for (size_t k = 0; k < Tiny_SymbolArrayCount(y->sstruct.fields); ++k) o += string(k ? ", " : "") + y->sstruct.fields[k]->name + ": " + typeI(y->sstruct.fields[k]->fieldTag);
            o += "} ";
        } else o += y->type == TINY_SYM_TAG_FOREIGN ? "foreign " : y->type == TINY_SYM_TAG_INT ? "int " : y->type == TINY_SYM_TAG_BOOL ? "bool " : y->type == TINY_SYM_TAG_FLOAT ? "float " : y->type == TINY_SYM_TAG_STR ? "str " : y->type == TINY_SYM_TAG_ANY ? "any " : y->type == TINY_SYM_TAG_VOID ? "void " : "type? ";
    }
    if (const Tiny_Symbol *y = Tiny_FindConstSymbol(s, n.c_str())) {
        if (y->name != n) o += string("named ") + y->name;
        string t = typeI(y->constant.tag);
        o += "const " + t + " ";
        if (t == "int") o += I(y->constant.iValue);
        if (t == "bool") o += y->constant.bValue ? "true" : "false";
        if (t == "float") o += floatText(y->constant.fValue);
        if (t == "str") o += Tiny_GetStringFromConstIndex(s, y->constant.sIndex);
    }
    return o;
}
static string seenR(ref::State &S, const string &n, bool generated) {
    string o;
    ref::Func *f = S.func(n);
    for (auto g : S.globals) if (g->k == ref::Var::Global && g->name == n) { o += "global "; break; }
    if (!generated) for (auto x : S.funcs) if (x->name == n && !x->foreign) { o += "index "; break; }
    if (f) {
        o += string("function ") + (generated ? "(" : f->foreign ? "bound(" : "script(");
        for (size_t k = 0; k < f->args.size(); ++k) o += (k ? ", " : "") + (f->foreign || generated ? "" : f->params[k]->name + ": ") + f->args[k]->name;
        o += (f->varargs ? "...): " : "): ") + f->ret->name + " ";
    }
    Type *t = S.named(n, false);
    if (t && t->k == Type::Struct && t->defined) {
        o += "struct{";
        for (size_t k = 0; k < t->fields.size(); ++k) o += (k ? ", " : "") + t->fields[k].first + ": " + t->fields[k].second->name;
        o += "} ";
    } else if (t && t->k != Type::Struct) o += t->k == Type::Foreign ? "foreign " : t->name + " ";
    for (auto g : S.globals)
        if (g->k == ref::Var::Const && g->name == n) {
            o += "const " + g->type->name + " ";
            if (g->type->k == Type::Int) o += I(g->cval.i);
            if (g->type->k == Type::Bool) o += g->cval.b ? "true" : "false";
            if (g->type->k == Type::Float) o += floatText(g->cval.f);
            if (g->type->k == Type::Str) o += *g->cval.s;
            break;
        }
    return o;
}
static std::set<string> names(const string &src) {
    std::set<string> o = {"", " ", "int", "any", "void", "func", "if", "nosuch", "main", "out", "oi", "dict", "strcat", "INT_MAX", "array_any", "nat", "hs", "float", "box", "?", "int?", "0"};
    for (auto &t : corpus::tokens(src)) {
        string n = t[0] == '"' && t.size() > 2 ? t.substr(1, t.size() - 2) : t;
        if (!isalpha((unsigned char)n[0]) && n[0] != '_') { o.insert(n); continue; }
        o.insert(n);
        for (string x : {n + "?", n + "x", n + " ", " " + n, n + "_to_json", n + "_push", n + "_get_index", n + "_call", n.substr(0, n.size() - 1), n.substr(1), n + n}) o.insert(x);
        string up = n, lo = n;
        for (auto &c : up) c = (char)toupper((unsigned char)c);
        for (auto &c : lo) c = (char)tolower((unsigned char)c);
        o.insert(up); o.insert(lo);
    }
    return o;
}
static void lookups(df::Duo &D, const string &src) {
    std::set<int> globals, funcs;
    for (auto &n : names(src)) {
        ref::Func *f = D.R.S.func(n);
        bool gen = f && f->generated;
        string a = seenI(D.I.s, n, gen), b = seenR(D.R.S, n, gen);
        if (a != b) mc::fail("the name '%s' is found as [%s], declared is [%s]\n--- program\n%s", n.c_str(), a.c_str(), b.c_str(), df::clip(src).c_str());
        int g = Tiny_GetGlobalIndex(D.I.s, n.c_str()), i = Tiny_GetFunctionIndex(D.I.s, n.c_str());
        if (g >= 0 && !globals.insert(g).second) mc::fail("the global %s has the index of another one\n%s", n.c_str(), df::clip(src).c_str());
        if (i >= 0 && !funcs.insert(i).second) mc::fail("the function %s has the index of another one\n%s", n.c_str(), df::clip(src).c_str());
        mc::noteTransitions(1);
    }
}
static void units(const std::vector<string> &u) {
    df::Duo D(opt);
    string src;
    lookups(D, "");
    for (auto &x : u) {
        src += x + "\n";
        if (!D.compile(x)) return;
        lookups(D, src);
    }
    D.run();
    lookups(D, src);
}
// ---------------------------------------------------------------- declarations; @ is the name
static const std::vector<string> DECL = {"@ := ti(5)", "@: float = 1.5", "@ :: 12", "@ :: \"text\"", "@ :: 2.5", "@ :: true", "@ :: 'c'", "func @() { }", "func @(a: int, ab: str): int { b := a return b }", "func @(a: @, b: any?, c: S?): @? { }", "struct @ { a: int }", "struct @ { b: str ab: @? a: S? c: any }", "for @ := 0; @ < 2; @ += 1 { }", "{ @ := 1 { ab := 2 } }",
    "use array(\"int\") as @", "use delegate(\"ti\") as @", "func loc(@: int) { x@ := @ }", "struct Loc { @: int }", "@ = 3", "oi(@)", "dump(new @{1})", "os(\"@\")", "if tb(true) { in@ := 1 }", "func other(a: @) { }", "use array(\"@\") as arr", "use json(\"@\")", "use delegate(\"@\") as del", "@: @ = new @{4}"};
static const std::vector<string> NAME = {"a", "ab", "A", "S"};
static void declarations(uint64_t i, int n) {
    mc::Digits d(i);
    int split = (int)d(1u << (n - 1));
    std::vector<string> u{"struct S { v: int }\n"};
    for (int k = 0; k < n; ++k) {
        if (k && (split >> (k - 1) & 1)) u.push_back("");
        size_t t = d(DECL.size());
        u.back() += sub(DECL[t], "@", NAME[d(NAME.size())]) + "\n";
    }
    units(u);
}
// ---------------------------------------------------------------- bindings
static TINY_FOREIGN_FUNCTION(fNone) { return Tiny_Null; }
static const std::vector<string> PART = {"int", "float", "bool", "str", "any", "nat", "S", "int?", "later"};
static void bindings(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(4), form = (int)d(4), ret = (int)d(PART.size() + 1);
    string sig = "fn";
    std::vector<string> p;
    for (int k = 0; k < n; ++k) p.push_back(PART[d(PART.size())]);
    if (form < 3) { sig += "(" + join(p, ", ") + (form == 1 ? (n ? ", ..." : "...") : "") + ")"; if (form != 2) sig += ": " + (ret < (int)PART.size() ? PART[ret] : "void"); }
    else if (n) return;
    df::Opt o = opt;
    auto im = opt.binder; auto re = opt.refBinder;
    o.binder = [=](Tiny_State *s) {
        im(s);
        Tiny_BindFunction(s, sig.c_str(), fNone);
        Tiny_BindConstInt(s, "KI", -77); Tiny_BindConstFloat(s, "KF", 0.1); Tiny_BindConstBool(s, "KB", true); Tiny_BindConstString(s, "KS", "bound \"text\""); Tiny_BindConstString(s, "KE", "");
        Tiny_RegisterType(s, "regd");
    };
    o.refBinder = [=](df::RefEnv &R) {
        re(R);
        R.S.bind(sig, [](std::vector<ref::Val> &) { return ref::Val{}; });
        auto &S = R.S;
        S.constant("KI", S.tInt, ref::Val::mkInt(-77)); S.constant("KF", S.tFloat, ref::Val::mkFloat(0.1)); S.constant("KB", S.tBool, ref::Val::mkBool(true)); S.constant("KS", S.tStr, R.str("bound \"text\"")); S.constant("KE", S.tStr, R.str(""));
        S.registerType("regd");
    };
    df::Duo D(o);
    string src = "fn KI KF KB KS KE regd S later nat v ";
    lookups(D, src);
    string u = "struct S { v: int } struct later { q: int }\nout(KI, KF, KB, KS, KE)\n";
    if (!D.compile(u)) return;
    lookups(D, src + u);
    D.run();
}
// ---------------------------------------------------------------- globals shared with the host
static TINY_FOREIGN_FUNCTION(fHget) { return Tiny_GetGlobal(thread, Tiny_GetGlobalIndex(thread->state, Tiny_ToString(args[0]))); }
static TINY_FOREIGN_FUNCTION(fHset) { Tiny_SetGlobal(thread, Tiny_GetGlobalIndex(thread->state, Tiny_ToString(args[0])), args[1]); return Tiny_Null; }
static const std::vector<string> OPS = {"a = b + 1", "b = a * 2", "a += 1", "hset(\"a\", ti(7))", "hset(\"b\", hget(\"a\"))", "dump(hget(\"a\"), hget(\"b\"))", "s = hs(\"n\", a)", "hset(\"s\", hs(\"h\", b))", "os(s) dump(hget(\"s\"))", "p = new S{a}", "p.v += 1 dump(hget(\"p\"))", "hset(\"p\", q)", "q = p hset(\"q\", new S{50})", "x = hget(\"p\")", "hset(\"x\", null)", "change(3)", "cast(hget(\"p\"), S).v = 90", "t = hget(\"a\") == a u = hget(\"s\") == s"};
static df::Machine mach[3];
static bool host(const std::vector<int> &q, int mode) {
    df::Machine &m = mach[mode];
    if (!m.text) {
        m.opt = opt;
        if (mode == 2) m.opt.gc = 0;
        m.text = [mode] {
            return df::machine("struct S { v: int }\n", "a := 1 b := 2 s := \"s\" p := new S{3} q := new S{4} x := cast(5, any) t := true u := false\nfunc change(n: int) { hset(\"a\", n) a += n b = cast(hget(\"a\"), int) if n > 0 { change(n - 2) } dump(hget(\"b\"), a) }", OPS, "dump(a, b, s, p, q, x, t, u)", "dump(hget(\"a\"), hget(\"p\"), hget(\"x\"), hget(\"t\"))", mode == 1);
        };
        if (mode == 1) { auto f = m.text; m.text = [f] { string t = f(), v = "a := 1 b := 2"; size_t at = t.find("func main()"), w = t.find(v), e = t.find("func change", w); string vars = t.substr(w, e - w); size_t end = t.find("\n", e); string fn = t.substr(e, end - e); return t.substr(0, at) + vars + fn + "\n" + t.substr(at, w - at) + t.substr(end); }; }
    }
    return m.run(q);
}
// Many globals, written and read from both sides in any order.
static void many(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(mc::thorough ? 900 : 400) + 1, kind = (int)d(3), splits = (int)d(3), order = (int)d(2);
    df::Impl Im(opt.binder);
    std::vector<string> u(splits + 1);
    string get = "func getall() {\n", set = "func setall() {\n";
    auto nm = [&](int k) { return kind == 0 ? "g" + I(k) : kind == 1 ? string(k % 9 + 1, (char)('a' + k / 9 % 26)) + I(k / 234) + "z" : "v" + string(k, '_'); };
    for (int k = 0; k < n; ++k) {
        u[k * (splits + 1) / n] += nm(k) + " := " + (k % 3 == 0 ? I(k) : k % 3 == 1 ? "\"s" + I(k) + "\"" : I(k) + ".5") + "\n";
        get += "out(" + nm(k) + ")\n";
        set += nm(k) + " = " + (k % 3 == 0 ? "ti(" + I(k + 5000) + ")" : k % 3 == 1 ? "\"t" + I(k) + "\"" : I(k) + ".25") + "\n";
    }
    for (auto &x : u) if (!Im.compile(x)) mc::fail("rejected: %s", Im.err.c_str());
    if (!Im.compile(get + "}\n" + set + "}\n")) mc::fail("rejected: %s", Im.err.c_str());
    Im.start();
    // Nothing has run, so that nothing has a value.
    for (int k = 0; k < n; ++k) { int g = Tiny_GetGlobalIndex(Im.s, nm(k).c_str()); if (g < 0 || !Tiny_IsNull(Tiny_GetGlobal(&Im.t, g))) mc::fail("global %s of %d has a value before the program runs", nm(k).c_str(), n); }
    while (Tiny_ExecuteCycle(&Im.t)) { }
    int fg = Tiny_GetFunctionIndex(Im.s, "getall"), fs = Tiny_GetFunctionIndex(Im.s, "setall");
    std::set<int> seen;
    auto at = [&](int k) { int g = Tiny_GetGlobalIndex(Im.s, nm(k).c_str()); if (g < 0) mc::fail("global %s is not found", nm(k).c_str()); return g; };
    auto expect = [&](int k, const string &w, const char *when) { string t; df::showT(t, Tiny_GetGlobal(&Im.t, at(k))); if (t != w) mc::fail("global %s of %d is %s instead of %s %s", nm(k).c_str(), n, t.c_str(), w.c_str(), when); };
    auto val = [&](int k, int round) -> Tiny_Value { return k % 3 == 0 ? Tiny_NewInt(k * 3 + round) : k % 3 == 1 ? Tiny_NewStringCopyNullTerminated(&Im.t, ("h" + I(k)).c_str()) : Tiny_NewFloat(k + 0.125); };
    auto text = [&](Tiny_Value v) { string t; df::showT(t, v); return t; };
    for (int k = 0; k < n; ++k) { if (!seen.insert(at(k)).second) mc::fail("two of %d globals have the same index", n); expect(k, text(k % 3 == 0 ? Tiny_NewInt(k) : k % 3 == 1 ? Tiny_NewConstString(("s" + I(k)).c_str()) : Tiny_NewFloat(k + 0.5)), "after the run"); }
    Tiny_CallFunction(&Im.t, fs, nullptr, 0);
    string want;
    for (int k = 0; k < n; ++k) expect(k, text(k % 3 == 0 ? Tiny_NewInt(k + 5000) : k % 3 == 1 ? Tiny_NewConstString(("t" + I(k)).c_str()) : Tiny_NewFloat(k + 0.25)), "after the script assigned it");
    for (int k = 0; k < n; ++k) { int j = order ? n - 1 - k : k; Tiny_SetGlobal(&Im.t, at(j), val(j, 1)); }
    for (int k = 0; k < n; ++k) want += "out(" + text(Tiny_GetGlobal(&Im.t, at(k))) + ");";
    for (int k = 0; k < n; ++k) expect(k, text(val(k, 1)), "after the host set it");
    Im.log.out.clear();
    Tiny_CallFunction(&Im.t, fg, nullptr, 0);
    if (Im.log.out != want) mc::fail("the script reads %s", df::differ(want, Im.log.out).c_str());
    uint64_t h[2] = {(uint64_t)n, i};
    mc::noteState(mc::hash(h, sizeof h));
    mc::noteTransitions(n * 6);
    mc::noteTrace();
    mc::noteRun();
}
// ---------------------------------------------------------------- names of any length which differ at one place
static void alike(uint64_t i) {
    mc::Digits d(i);
    int len = (int)d(201) + 1, place = (int)d(4), kind = (int)d(5);
    string base;
    for (int k = 0; k < len; ++k) base += (char)('a' + k % 26);
    string a = base, b = base;
    if (place == 0) b[len - 1] = 'Z'; else if (place == 1) b[0] = 'Z'; else if (place == 2) b[len / 2] = 'Z'; else b += "q";
    static const char *F[] = {"func %() { }", "% := ti(1)", "struct % { v: int }", "% :: 4", "func %(p: int): str { return \"\" }"};
    df::Duo D(opt);
    string u = "out(1)\n" + sub(F[kind], "%", a) + "\n", v = "out(2)\n" + sub(F[kind], "%", b) + "\n";
    if (!D.compile(u)) return;
    string src = u + v;
    lookups(D, src);
    if (!D.compile(v)) return;
    lookups(D, src);
    D.run();
}
// ---------------------------------------------------------------- the values of bound constants
static void constants(uint64_t i) {
    df::Opt o = opt;
    std::vector<long long> V;
    for (int k = 0; k < 64; ++k) for (long long e : {-1, 0, 1}) { long long x = (long long)(1ull << k) + e; V.push_back(x); V.push_back(-x); }
    long long v = V[i % V.size()], w = V[(i / V.size() * 37 + i) % V.size()];
    double f = ldexp((double)(v % 1000003) + 0.1, (int)(i % 200) - 100);
    string t(i % 300, (char)(1 + i % 255)), e = "end";
    auto text = [](const string &s) { ref::Val v; v.t = ref::Val::Str; v.s = &s; return v; };
    auto im = o.binder; auto re = o.refBinder;
    o.binder = [=](Tiny_State *s) {
        im(s);
        { string name = "KI"; Tiny_BindConstInt(s, name.c_str(), v); name = "KJ"; Tiny_BindConstInt(s, name.c_str(), w); name = "KF"; Tiny_BindConstFloat(s, name.c_str(), f); name = "KB"; Tiny_BindConstBool(s, name.c_str(), v % 3 == 0); }
        { string text = t; Tiny_BindConstString(s, "KS", text.c_str()); text.assign(text.size(), '?'); text = e; Tiny_BindConstString(s, "KT", text.c_str()); }
    };
    o.refBinder = [=, &t, &e](df::RefEnv &R) {
        re(R);
        auto &S = R.S;
        S.constant("KI", S.tInt, ref::Val::mkInt(v)); S.constant("KJ", S.tInt, ref::Val::mkInt(w)); S.constant("KF", S.tFloat, ref::Val::mkFloat(f)); S.constant("KB", S.tBool, ref::Val::mkBool(v % 3 == 0)); S.constant("KS", S.tStr, text(t)); S.constant("KT", S.tStr, text(e));
    };
    df::Duo D(o);
    string src = "KI KJ KF KB KS KT";
    lookups(D, src);
    if (!D.compile("// " + I(i) + "\nfunc f(a: int): int { return a } x := KI out(KI, KJ, KF, KB, KS, KT, x == KI, f(KJ) == KJ, strlen(KS)) if KB { out(KT) }\n")) return;
    lookups(D, src);
    D.run();
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        auto im = opt.binder; auto re = opt.refBinder;
        opt.binder = [im](Tiny_State *s) { im(s); Tiny_BindFunction(s, "hget(str): any", fHget); Tiny_BindFunction(s, "hset(str, any): void", fHset); };
        opt.refBinder = [re](df::RefEnv &R) {
            re(R);
            df::RefEnv *P = &R;
            auto slot = [P](const ref::Val &n) -> ref::Val & { for (auto g : P->S.globals) if (g->k == ref::Var::Global && g->name == *n.s) return P->M->globals[g->slot]; throw ref::Skip{"no such global"}; };
            R.S.bind("hget(str): any", [slot](std::vector<ref::Val> &a) { return slot(a[0]); });
            R.S.bind("hset(str, any): void", [slot](std::vector<ref::Val> &a) { slot(a[0]) = a[1]; return ref::Val{}; });
        };
        opt.checkGlobals = false;
        df::arrayNames = {"array_any", "a", "A", "ab", "arr", "ints", "strs"};
        bool th = mc::thorough;
        const auto &U = corpus::units();
        uint64_t nu = U.size(), nd = DECL.size() * NAME.size();
        mc::family("units", nu, [&](uint64_t i) { units({corpus::units()[i]}); }, [&](uint64_t i) { return corpus::units()[i]; });
        mc::family("unit-pairs", nu * nu * 2, [nu](uint64_t i) {
            auto &U = corpus::units();
            size_t a = i % nu, b = i / nu % nu;
            if (a == b) return;
            if (i / nu / nu) units({U[a] + "\n" + U[b]}); else units({U[a], U[b]});
        });
        mc::family("declarations-1", nd, [](uint64_t i) { declarations(i, 1); });
        mc::family("declarations-2", mc::power(nd, 2) * 2, [](uint64_t i) { declarations(i, 2); });
        if (th) mc::family("declarations-3", mc::power(nd, 3), [](uint64_t i) { declarations(i * 4 + (i * 2654435761u >> 7) % 4, 3); });
        mc::family("bindings", 4 * 4 * (PART.size() + 1) * mc::power(PART.size(), 3), [](uint64_t i) {
            uint64_t n = i % 4, ps = i / 16 / (PART.size() + 1);
            if (ps / mc::power(PART.size(), n)) return;           // parameters which do not exist
            if (n == 3 && !mc::thorough && ps % 19) return;
            bindings(i);
        });
        int k = th ? 4 : 3;
        mc::family("host-access", mc::power(OPS.size(), k) * 3, [k](uint64_t i) {
            int mode = (int)(i / mc::power(OPS.size(), k));
            i %= mc::power(OPS.size(), k);
            std::vector<int> q;
            for (int j = 0; j < k; ++j) { q.push_back((int)(i % OPS.size())); i /= OPS.size(); }
            host(q, mode);
        });
        mc::family("alike", 201 * 4 * 5, [](uint64_t i) { alike(i); });
        mc::family("constants", 384 * (th ? 6 : 2), [](uint64_t i) { constants(i); });
        mc::family("many", (th ? 900 : 400) * 3 * 3 * 2, [](uint64_t i) { if (!mc::thorough && i % 400 > 20 && i % 400 % 17 > 1) return; many(i); });
    });
}
