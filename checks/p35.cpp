// P35: use statements call the host's macros once each, in order, with exactly their arguments.
#include "stdref.hpp"
#include "gen.hpp"
#include <set>
using namespace gen;
static string calls;                               // what the macros saw
static int depth;
static string quoted(const char *s) { return s ? "<" + I((long)strlen(s)) + ":" + s + ">" : "-"; }
static void note(const char *who, char *const *args, int n, const char *as) {
    calls += string(depth, '+') + who + "(";
    for (int i = 0; i < n; ++i) calls += quoted(args[i]);
    calls += ")" + quoted(as) + ";";
}
static Tiny_MacroResult failure(const string &m) {
    Tiny_MacroResult r = {TINY_MACRO_ERROR};
    snprintf(r.error.msg, sizeof r.error.msg, "%s", m.c_str());
    return r;
}
static const Tiny_MacroResult OK = {TINY_MACRO_SUCCESS};
static TINY_MACRO_FUNCTION(mRec) { note("rec", args, nargs, asName); return OK; }
static TINY_MACRO_FUNCTION(mRec2) { note("rec_2", args, nargs, asName); return OK; }
static TINY_MACRO_FUNCTION(mFail) { note("fail", args, nargs, asName); return failure(nargs ? args[0] : ""); }
static string look(Tiny_State *s, const char *n) {
    string o;
    const Tiny_Symbol *t = Tiny_FindTypeSymbol(s, n), *f = Tiny_FindFuncSymbol(s, n), *c = Tiny_FindConstSymbol(s, n);
    if (t && t->type == TINY_SYM_TAG_STRUCT) { o += "struct"; for (size_t i = 0; i < Tiny_SymbolArrayCount(t->sstruct.fields); ++i) o += string(" ") + t->sstruct.fields[i]->name + ":" + t->sstruct.fields[i]->fieldTag->name; }
    if (f && f->type == TINY_SYM_FUNCTION) { o += "func"; for (size_t i = 0; i < Tiny_SymbolArrayCount(f->func.args); ++i) o += string(" ") + f->func.args[i]->name; }
    if (f && f->type == TINY_SYM_FOREIGN_FUNCTION) o += "foreign";
    if (c) o += "const";
    if (Tiny_GetGlobalIndex(s, n) >= 0) o += "global";
    return o;
}
static TINY_MACRO_FUNCTION(mLook) { note("look", args, nargs, asName); for (int i = 0; i < nargs; ++i) calls += "{" + look(state, args[i]) + "}"; return OK; }
static TINY_FOREIGN_FUNCTION(fMade) { return Tiny_NewInt(Tiny_ToInt(args[0]) + 100); }
static TINY_MACRO_FUNCTION(mMake) {
    note("make", args, nargs, asName);
    Tiny_BindFunction(state, (string(args[0]) + "(int): int").c_str(), fMade);
    return OK;
}
static TINY_MACRO_FUNCTION(mType) { note("type", args, nargs, asName); Tiny_RegisterType(state, asName); return OK; }
static TINY_MACRO_FUNCTION(mComp) {
    note("comp", args, nargs, asName);
    ++depth;
    Tiny_CompileResult r = Tiny_CompileString(state, asName ? asName : "generated", args[0]);
    --depth;
    return r.type == TINY_COMPILE_SUCCESS ? OK : failure(string("inner: ") + args[1]);
}
static Tiny_State *host() {
    Tiny_State *s = Tiny_CreateState();
    df::stdOpt().binder(s);
    Tiny_BindMacro(s, "rec", mRec);
    Tiny_BindMacro(s, "rec_2", mRec2);
    Tiny_BindMacro(s, "fail", mFail);
    Tiny_BindMacro(s, "look", mLook);
    Tiny_BindMacro(s, "make", mMake);
    Tiny_BindMacro(s, "type", mType);
    Tiny_BindMacro(s, "comp", mComp);
    return s;
}
static string run(Tiny_State *s) {
    df::Log log;
    Tiny_StateThread t;
    Tiny_InitThread(&t, s);
    t.userdata = &log;
    Tiny_StartThread(&t);
    long n = 0;
    while (!Tiny_IsThreadDone(&t) && ++n < 100000) Tiny_ExecuteCycle(&t);
    mc::noteTransitions(n);
    Tiny_DestroyThread(&t);
    return log.out;
}
// ---- items of a source, and what they do according to the model
struct Item { const char *text; };
enum { REC0, REC2, RECAS, FAIL, NOSUCH, STRUCT, FUNC, LOOK, MAKE, USEG, COMP, USEH, NEST, INNERBAD, SYNTAX, CONST_, GLOBAL, TYPE, USET, STMT, NITEM };
static const char *ITEM[] = {
    "use rec()", "use rec(\"a\", \"b\\\\\\\"\")", "use rec_2(\"\") as x9", "use fail(\"boom\")", "use nosuch(\"q\")", "struct S { a: int b: str }", "func f(x: int, y: int): int { return x }", "use look(\"S\", \"f\", \"K\", \"v\", \"g\", \"h\")",
    "use make(\"g\")", "out(g(2))", "use comp(\"func h(): int { return 5 }\", \"\") as hh", "out(h())", "use comp(\"use rec(\\\"in\\\") as y\\nuse look(\\\"f\\\")\", \"\")", "use comp(\"use fail(\\\"deep\\\")\", \"bang\")", "z := )", "K :: 3", "v := 4", "use type() as tt", "func ft(a: tt) { }", "out(1)"};
struct World { bool S = false, f = false, K = false, v = false, g = false, h = false, t = false, ft = false; };
static string seen(const World &w, const char *n) {
    string s = n;
    if (s == "S") return w.S ? "struct a:int b:str" : "";
    if (s == "f") return w.f ? "func x y" : "";
    if (s == "K") return w.K ? "const" : "";
    if (s == "v") return w.v ? "global" : "";
    if (s == "g") return w.g ? "foreign" : "";
    return w.h ? "func" : "";
}
static string q(const string &s) { return "<" + I((long)s.size()) + ":" + s + ">"; }
// The model: returns the message part that has to appear ("" when accepted, "?" when any), or "skip".
static string model(const std::vector<int> &p, World &w, string &calls, string &out) {
    World n = w;
    for (int k : p) {                               // parsing
        if ((k == STRUCT && n.S) || (k == CONST_ && n.K) || (k == GLOBAL && n.v)) return "?";
        if ((k == FUNC && n.f) || (k == USET && n.ft)) return "skip";     // functions defined twice
        n.S |= k == STRUCT; n.f |= k == FUNC; n.K |= k == CONST_; n.v |= k == GLOBAL; n.ft |= k == USET;
    }
    for (int k : p) if (k == SYNTAX) return "?";
    string o;
    for (int k : p) switch (k) {
        case REC0: calls += "rec()-;"; break;
        case REC2: calls += "rec(" + q("a") + q("b\\\"") + ")-;"; break;
        case RECAS: calls += "rec_2(" + q("") + ")" + q("x9") + ";"; break;
        case FAIL: calls += "fail(" + q("boom") + ")-;"; return "'fail' failed: boom";
        case NOSUCH: return "nosuch";
        case LOOK: calls += "look("; for (auto x : {"S", "f", "K", "v", "g", "h"}) calls += q(x); calls += ")-;"; for (auto x : {"S", "f", "K", "v", "g", "h"}) calls += "{" + seen(n, x) + "}"; break;
        case MAKE: if (n.g) return "skip"; n.g = true; calls += "make(" + q("g") + ")-;"; break;
        case COMP: if (n.h) return "skip"; n.h = true; calls += "comp(" + q("func h(): int { return 5 }") + q("") + ")" + q("hh") + ";"; break;
        case NEST: calls += "comp(" + q("use rec(\"in\") as y\nuse look(\"f\")") + q("") + ")-;+rec(" + q("in") + ")" + q("y") + ";+look(" + q("f") + ")-;{" + seen(n, "f") + "}"; break;
        case INNERBAD: calls += "comp(" + q("use fail(\"deep\")") + q("bang") + ")-;+fail(" + q("deep") + ")-;"; return "inner: bang";
        case TYPE: if (n.t) return "skip"; n.t = true; calls += "type()" + q("tt") + ";"; break;
    }
    for (int k : p) {
        if (k == USEG) { if (!n.g) return "'g'"; o += "g"; }
        if (k == USEH) { if (!n.h) return "'h'"; o += "h"; }
        if (k == USET && !n.t) return "tt";
    }
    w = n;
    out += o;
    return "";
}
static string textOf(const std::vector<int> &p) { string s; for (int k : p) s += string(ITEM[k]) + "\n"; return s; }
// Sources after each other; what the program prints is checked as a whole.
static void sources(const std::vector<std::vector<int>> &all) {
    Tiny_State *s = host();
    World w;
    string src, want, out;
    bool any = false;
    calls.clear();
    for (auto &p : all) {
        string m, o;
        World before = w;
        string why = model(p, w, m, o);
        if (why == "skip") { mc::noteSkip(); Tiny_DeleteState(s); return; }
        string text = textOf(p);
        src += "----\n" + text;
        calls.clear();
        Tiny_CompileResult r = Tiny_CompileString(s, "main", text.c_str());
        mc::noteTransitions(1);
        if (calls != m) mc::fail("the macros are called with\n%s\ninstead of\n%s\n%s", calls.c_str(), m.c_str(), src.c_str());
        if ((r.type == TINY_COMPILE_SUCCESS) != why.empty()) mc::fail("%s\n%s\n%s", why.empty() ? "rejected" : "accepted", why.empty() ? r.error.msg : why.c_str(), src.c_str());
        if (why.empty()) any = true;
        else if (why != "?" && !strstr(r.error.msg, why[0] == '\'' && why.size() == 3 ? why.substr(1, 1).c_str() : why.c_str())) mc::fail("the message does not contain `%s`:\n%s\n%s", why.c_str(), r.error.msg, src.c_str());
        if (why.empty()) for (int k : p) { if (k == USEG) out += "out(I102);"; if (k == USEH) out += "out(I5);"; if (k == STMT) out += "out(I1);"; }
        mc::noteState(mc::hash((calls + why).data(), calls.size() + why.size()));
    }
    if (any) {
        string got = run(s);
        if (got != out) mc::fail("the program gives `%s` instead of `%s`\n%s", got.c_str(), out.c_str(), src.c_str());
    }
    mc::noteTrace();
    Tiny_DeleteState(s);
}
// ---- arguments
static string literal(const string &v) { string o = "\""; for (char c : v) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') o += "\\n"; else o += c; } return o + "\""; }
static void arguments(const std::vector<string> &a, const string &as, const char *sep, bool before) {
    Tiny_State *s = host();
    string t = before ? "x := 1\n" : "", want = "rec(";
    t += "use rec(";
    for (size_t i = 0; i < a.size(); ++i) { t += (i ? sep : "") + literal(a[i]); want += q(a[i]); }
    t += ")" + (as.empty() ? "" : " as " + as) + "\nout(1)";
    want += ")" + (as.empty() ? "-" : q(as)) + ";";
    calls.clear();
    Tiny_CompileResult r = Tiny_CompileString(s, "main", t.c_str());
    mc::noteTransitions(1); mc::noteTrace();
    bool fits = a.size() <= 128;
    if (fits != (r.type == TINY_COMPILE_SUCCESS)) mc::fail("%zu arguments are %s %s\n%s", a.size(), fits ? "rejected" : "accepted", fits ? r.error.msg : "", df::clip(t).c_str());
    if (calls != (fits ? want : "")) mc::fail("called with\n%s\ninstead of\n%s\n%s", df::clip(calls).c_str(), df::clip(want).c_str(), df::clip(t).c_str());
    if (fits && run(s) != "out(I1);") mc::fail("the program does not run as written\n%s", df::clip(t).c_str());
    mc::noteState(mc::hash(calls.data(), calls.size()));
    Tiny_DeleteState(s);
}
static const char CH[] = "a\"\\\n ,)%\xc3";
static const int NCH = sizeof CH - 1;
static string word(uint64_t i) { string s; for (int k : mc::seqAt(NCH, i)) s += CH[k]; return s; }
// ---- nesting: a macro which compiles code which uses a macro ...
static string nested(int n, const string &core) {
    string s = core;
    for (int i = 0; i < n; ++i) s = "use comp(" + literal(s) + ", \"\")";
    return s;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        mc::family("sources", mc::seqCount(NITEM, mc::thorough ? 5 : 4), [](uint64_t i) { auto p = mc::seqAt(NITEM, i); sources({p}); }, [](uint64_t i) { return textOf(mc::seqAt(NITEM, i)); });
        static const uint64_t N2 = mc::seqCount(NITEM, 2);
        mc::family("successive-sources", N2 * N2, [](uint64_t i) { sources({mc::seqAt(NITEM, i % N2), mc::seqAt(NITEM, i / N2)}); }, [](uint64_t i) { return textOf(mc::seqAt(NITEM, i % N2)) + "----\n" + textOf(mc::seqAt(NITEM, i / N2)); });
        if (mc::thorough) mc::family("three-sources", (uint64_t)NITEM * NITEM * NITEM * NITEM * NITEM, [](uint64_t i) { mc::Digits d(i); int a = (int)d(NITEM), b = (int)d(NITEM), c = (int)d(NITEM), e = (int)d(NITEM), f = (int)d(NITEM); sources({{a, b}, {c}, {e, f}}); }, nullptr);
        static const uint64_t NW = mc::seqCount(NCH, mc::thorough ? 5 : 4), NS = mc::seqCount(NCH, 2);
        mc::family("argument", NW, [](uint64_t i) { arguments({word(i)}, i % 2 ? "n" : "", ", ", i % 3 == 0); }, [](uint64_t i) { return "argument " + word(i); });
        mc::family("arguments", NS * NS * 2, [](uint64_t i) { uint64_t k = i / 2; arguments({word(k % NS), word(k / NS)}, i % 2 ? "abc" : "", k % 3 ? ", " : ",", false); }, [](uint64_t i) { uint64_t k = i / 2; return word(k % NS) + " | " + word(k / NS); });
        mc::family("counts", 140 * 8, [](uint64_t i) {
            int n = (int)(i / 8), l = (int[]){0, 1, 20, 100}[i % 4];
            std::vector<string> a;
            for (int k = 0; k < n; ++k) a.push_back(rep("x", l) + (l ? I(k) : ""));
            arguments(a, i % 8 < 4 ? "" : rep("n", n + 1), ", ", true);
        }, [](uint64_t i) { return I(i / 8) + " arguments, kind " + I(i % 8); });
        mc::family("lengths", 3000, [](uint64_t i) { int n = (int)i; arguments({rep("y", n), "z"}, rep("n", n % 200 + 1), ", ", n % 2); }, [](uint64_t i) { return "argument of " + I(i) + " bytes"; });
        // a macro may have the name of anything else, and be bound at any time
        mc::family("names-of-others", 7 * 7 * 4, [](uint64_t i) {
            static const char *N[] = {"S", "f", "K", "v", "oi", "int", "fresh"};
            string a = N[i % 7], b = N[i / 7 % 7];
            if (a == b) return;
            int when = (int)(i / 49);
            Tiny_State *s = host();
            string src = "struct S { a: int } func f(x: int): int { return x + 1 } K :: 3 v := 4\nout(f(K) + v)";
            if (when & 1) { Tiny_BindMacro(s, a.c_str(), mRec); Tiny_BindMacro(s, b.c_str(), mRec2); }
            if (Tiny_CompileString(s, "main", src.c_str()).type != TINY_COMPILE_SUCCESS) mc::fail("rejected with macros %s, %s", a.c_str(), b.c_str());
            if (when & 2) { Tiny_CompileResult r = Tiny_CompileString(s, "main", "z := nosuch"); (void)r; }
            if (!(when & 1)) { Tiny_BindMacro(s, a.c_str(), mRec); Tiny_BindMacro(s, b.c_str(), mRec2); }
            calls.clear();
            string t = "use " + a + "(\"1\") use " + b + "(\"2\") use " + a + "(\"3\") as S out(f(1))";
            Tiny_CompileResult r = Tiny_CompileString(s, "main", t.c_str());
            if (r.type != TINY_COMPILE_SUCCESS) mc::fail("rejected: %s\n%s", r.error.msg, t.c_str());
            string want = "rec(<1:1>)-;rec_2(<1:2>)-;rec(<1:3>)<1:S>;";
            if (calls != want) mc::fail("called with %s instead of %s\n%s", calls.c_str(), want.c_str(), t.c_str());
            if (run(s) != "out(I8);out(I2);") mc::fail("the program gives %s", run(s).c_str());
            mc::noteTransitions(1); mc::noteTrace(); mc::noteState(mc::hash(t.data(), t.size()));
            Tiny_DeleteState(s);
        }, [](uint64_t i) { return "names " + I(i % 7) + " and " + I(i / 7 % 7); });
        // what follows a request is not part of it, and what precedes it is not either
        static const std::vector<string> NAME = {"a", "as_", "as1", "ass", "asx", "assign", "As", "AS", "a_s", "s", "sa", "us", "use_", "user", "used", "x_as", "asas"};
        static const char *FOLLOW[] = {"@(3)", "@ = 5", "@ += 5", "@ :: 4", "@ := 4", "@.v = 6", "3->@()", "func @(x: int) { out(x) } @(2)", "if true @(1)", "{ @(1) }", "struct @ { v: int } as9 := new @{3} out(as9.v)", "use rec_2(\"z\") as @ out(1)", "use rec_2() use rec() as @", ";", ""};
        mc::family("followed", NAME.size() * 15 * 6, [](uint64_t i) {
            mc::Digits d(i);
            string n = NAME[d(NAME.size())], f = FOLLOW[d(15)];
            int sep = (int)d(3), as = (int)d(2);
            size_t k = 0;
            for (size_t j = 0; j < 15; ++j) if (f == FOLLOW[j]) k = j;
            Tiny_State *s = host();
            string decl = k == 0 || k == 6 || k == 8 || k == 9 ? "func @(x: int) { out(x) }" : k == 1 || k == 2 ? "@ := 1" : k == 5 ? "struct S { v: int } @ := new S{1}" : "";
            string t = decl + "\nuse rec(\"p\")" + (as ? " as nm" : "") + (sep == 0 ? " " : sep == 1 ? "\n" : " // as x\n") + f + "\n" + (k == 1 || k == 2 || k == 3 || k == 4 ? "out(@)" : k == 5 ? "out(@.v)" : "");
            for (size_t p; (p = t.find('@')) != string::npos;) t.replace(p, 1, n);
            calls.clear();
            Tiny_CompileResult r = Tiny_CompileString(s, "main", t.c_str());
            mc::noteTransitions(1); mc::noteTrace(); mc::noteState(mc::hash(t.data(), t.size()));
            bool ok = k != 13;
            if ((r.type == TINY_COMPILE_SUCCESS) != ok) mc::fail("%s %s\n%s", ok ? "rejected" : "accepted", ok ? r.error.msg : "", t.c_str());
            if (ok) {
                string want = string("rec(<1:p>)") + (as ? "<2:nm>;" : "-;") + (k == 11 ? "rec_2(<1:z>)" + q(n) + ";" : k == 12 ? "rec_2()-;rec()" + q(n) + ";" : "");
                if (calls != want) mc::fail("called with %s instead of %s\n%s", calls.c_str(), want.c_str(), t.c_str());
                static const char *OUT[] = {"3", "5", "6", "4", "4", "6", "3", "2", "1", "1", "3", "1", "", "", ""};
                string got = run(s), exp = OUT[k][0] ? string("out(I") + OUT[k] + ");" : "";
                if (got != exp) mc::fail("the program gives %s instead of %s\n%s", got.c_str(), exp.c_str(), t.c_str());
            }
            Tiny_DeleteState(s);
        }, [](uint64_t i) { mc::Digits d(i); string n = NAME[d(NAME.size())]; return n + " in " + FOLLOW[d(15)]; });
        mc::family("nesting", 12 * 4, [](uint64_t i) {
            int n = (int)(i % 12), kind = (int)(i / 12);
            static const char *CORE[] = {"use rec(\"core\")", "func h(): int { return 7 } use rec()", "use fail(\"deep\")", "struct S { a: int b: str } func f(x: int, y: int): int { return x } use look(\"S\", \"f\")"};
            Tiny_State *s = host();
            string t = nested(n, CORE[kind]) + "\nout(1)" + (kind == 1 ? "\nout(h())" : "");
            calls.clear();
            Tiny_CompileResult r = Tiny_CompileString(s, "main", t.c_str());
            if ((r.type == TINY_COMPILE_SUCCESS) != (kind != 2)) mc::fail("verdict %s\n%s", r.error.msg, t.c_str());
            string tail = rep("+", n) + (string[]){"rec(<4:core>)-;", "rec()-;", "fail(<4:deep>)-;", "look(<1:S><1:f>)-;{struct a:int b:str}{func x y}"}[kind];
            if (calls.size() < tail.size() || calls.substr(calls.size() - tail.size()) != tail) mc::fail("the innermost call is not %s but\n%s", tail.c_str(), calls.c_str());
            long c = 0;
            for (size_t p = 0; (p = calls.find("comp(<", p)) != string::npos; ++p) if (p == 0 || calls[p - 1] == '+' || calls[p - 1] == ';') ++c;
            if (c != n) mc::fail("%ld calls of the macro, nested %d times", c, n);
            if (kind != 2) { string got = run(s); if (got != (kind == 1 ? "out(I1);out(I7);" : "out(I1);")) mc::fail("the program gives %s", got.c_str()); }
            mc::noteTransitions(1); mc::noteTrace(); mc::noteState(mc::hash(calls.data(), calls.size()));
            Tiny_DeleteState(s);
        }, [](uint64_t i) { return I(i % 12) + " levels, kind " + I(i / 12); });
    });
}
