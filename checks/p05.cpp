// P05: typing verdicts and kind soundness.
#include "stdref.hpp"
#include "gen.hpp"
#include "corpus.hpp"
#include "rename.hpp"
using namespace gen;
static const char *TY[] = {"bool", "int", "float", "str", "any", "nat", "P", "Pq", "int?", "str?", "nat?", "P?", "Pq?", "any?", "void", "bool?", "float?"};
static const int NTY = 17;
static const char *BASE[] = {"true", "3", "2.5", "\"s\"", "ta(4)", "mknat()", "new P{1}", "new Pq{2}", "3", "\"s\"", "mknat()", "new P{1}", "new Pq{2}", "5", "1", "false", "1.5"};
// ways to produce a value of a type; form 0 literal-ish, 1 global, 2 call, 3 field, 4 parameter, 5 local
static string decls() {
    string s = "struct P { v: int }\nstruct Pq { v: int }\n";
    string fl = "struct Box {", bi;
    for (int t = 0; t < NTY; ++t) {
        string T = TY[t], n = I(t);
        if (T == "void") { s += "func c" + n + "() { }\n"; continue; }
        s += "g" + n + ": " + T + " = " + BASE[t] + "\nfunc c" + n + "(): " + T + " { return " + BASE[t] + " }\n";
        fl += " f" + n + ": " + T;
        bi += string(BASE[t]) + ", ";
    }
    return s + fl + " }\nbox := new Box{" + bi + "}\n";
}
static string D0;
static string prod(int t, int form) {
    string n = I(t);
    if (string(TY[t]) == "void") return "c" + n + "()";
    switch (form) {
        case 0: return BASE[t];
        case 1: return "g" + n;
        case 2: return "c" + n + "()";
        case 3: return "box.f" + n;
        case 4: return "p";
        default: return "l";
    }
}
// constructs: S is the source expression, D the destination type
static const char *CON[] = {
    "x: D = S out(x)", "x := S out(x)", "gd = S out(gd)", "pd = S out(pd)", "x: D = DV x = S out(x)", "b2.f = S out(b2.f)", "b3 := new B2{1, S, 2} out(b3.f)", "b3 := new B2{.b = 2, .f = S, .a = 1} out(b3.f)",
    "out(takes(1, S, 2))", "S->takes1()", "out(gives(1))", "out(gives2(true))", "x := cast(S, D) out(x)", "out(if tb(true) S else DV)", "out(if tb(false) S else DV)", "if S out(1)", "while S { out(1) break }", "for i := 0; S; i += 1 { out(i) break }",
    "gd += S out(gd)", "gd &= S out(gd)", "out(S == gd)", "out(gd + S)", "out(gd < S)", "out(!S)", "out(-S)", "out(if S 1 else 2)", "S", "out((S).v)", "out(S[0])", "x := S x = DV out(x)", "out(S && gd)", "out(foreignD(S))", "x := if tb(true) S else S out(x)"};
static const int NCON = 33;
static string matrix(uint64_t i) {
    mc::Digits d(i);
    int con = (int)d(NCON), s = (int)d(NTY), dst = (int)d(NTY), form = (int)d(6);
    string D = TY[dst], S = prod(s, form), ST = TY[s];
    string DV = string(D).back() == '?' ? BASE[dst] : prod(dst, 1);
    if (con == 31 && D.back() == '?') return "";
    bool nosrcvoid = ST == "void" && (form == 4 || form == 5);
    if (nosrcvoid) return "";
    string c = sub(sub(sub(CON[con], "DV", "@V"), "D", D), "@V", DV);
    c = sub(c, "S", "@S");
    c = sub(c, "@S", S);
    string pre = D0;
    if (D != "void") pre += "gd: " + D + " = " + DV + "\nstruct B2 { a: int f: " + D + " b: int }\nb2 := new B2{1, " + DV + ", 2}\nfunc takes(a: int, x: " + D + ", b: int): " + (D.back() == '?' ? "int" : D) + " { out(a, x, b) return " + (D.back() == '?' ? "a" : "x") + " }\nfunc takes1(x: " + D + ") { out(x) }\n";
    else if (c.find("gd") != string::npos || c.find("b2") != string::npos || c.find("B2") != string::npos || c.find("takes") != string::npos) return "";
    if (con == 10) pre += "func gives(a: int): " + D + " { q := a " + (form == 4 ? "p: " + ST + " = " + BASE[s] + " " : form == 5 ? "l: " + ST + " = " + BASE[s] + " " : "") + "return " + S + " }\n";
    if (con == 11) pre += "func gives2(a: bool): " + D + " { " + (form == 4 ? "p: " + ST + " = " + BASE[s] + " " : form == 5 ? "l: " + ST + " = " + BASE[s] + " " : "") + "if a return " + S + " while true { return " + S + " } }\n";
    string body = "func run(" + (ST == "void" ? "z: int" : "p: " + ST) + (D == "void" ? "" : ", pd: " + D) + ") {\n" + (ST == "void" ? "" : "l: " + ST + " = p\n") + c + "\n}\nrun(" + (ST == "void" ? "1" : prod(s, 1)) + (D == "void" ? "" : ", " + DV) + ")\n";
    if (form < 4 && con != 3 && i % 2 == 0) return pre + c + "\n";
    return pre + body;
}
// operators: every operator on every type pair
static const char *OPS[] = {"+", "-", "*", "/", "%", "|", "&", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"};
static string ops(uint64_t i) {
    mc::Digits d(i);
    int o = (int)d(17), a = (int)d(NTY), b = (int)d(NTY), f = (int)d(3);
    return D0 + "x := " + prod(a, f) + " " + OPS[o] + " " + prod(b, f == 0 ? 1 : f) + "\nout(x)\n";
}
// argument count and types: functions with 0..4 parameters called with 0..5 arguments
static string args(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(5), k = (int)d(6), kind = (int)d(7), wrong = (int)d(6), form = (int)d(3);
    static const char *T[] = {"int", "str", "float", "any", "bool"};
    static const char *V[] = {"1", "\"a\"", "1.5", "null", "true", "2"};
    std::vector<string> ps, as, ts;
    for (int q = 0; q < n; ++q) { ps.push_back("p" + I(q) + ": " + T[q]); ts.push_back(T[q]); }
    for (int q = 0; q < k; ++q) as.push_back(q == wrong ? "cast(null, P)" : V[q]);
    string s = "struct P { v: int }\n", f;
    switch (kind) {
        case 0: s += "func f(" + join(ps, ", ") + ") { out(9) }\n"; f = "f"; break;
        case 1: s += "func f(" + join(ps, ", ") + "): int { return 9 }\n"; f = "f"; break;
        case 2: f = "v" + I(n); break;        // foreign, fixed
        case 3: f = "w" + I(n); break;        // foreign, fixed then variadic
        case 4: f = "out"; break;
        case 5: f = "undefined_fn"; break;
        default: s += "struct f { v: int }\n"; f = "f";
    }
    if (form == 1 && k) { string h = as[0]; as.erase(as.begin()); return s + h + "->" + f + "(" + join(as, ", ") + ")\n"; }
    if (form == 2) return s + "x := " + f + "(" + join(as, ", ") + ")\nout(x)\n";
    return s + f + "(" + join(as, ", ") + ")\n";
}
static void bind(Tiny_State *s) {
    df::bindImpl(s);
    Tiny_BindMacro(s, "mac", [](Tiny_State *, char *const *, int, const char *) -> Tiny_MacroResult { Tiny_MacroResult r = {}; r.type = TINY_MACRO_SUCCESS; return r; });
    for (auto n : {"v0(): int", "v1(int): int", "v2(int, str): int", "v3(int, str, float): int", "v4(int, str, float, any): int", "w0(...): int", "w1(int, ...): int", "w2(int, str, ...): int", "w3(int, str, float, ...): int", "w4(int,str,float,any,...): any",
                   "foreignbool(bool): bool", "foreignint(int): int", "foreignfloat(float): float", "foreignstr(str): str", "foreignany(any): any", "foreignnat(nat): nat"})
        Tiny_BindFunction(s, n, [](Tiny_StateThread *t, const Tiny_Value *a, int c) -> Tiny_Value { df::logCall(t, "F", a, c); return Tiny_Null; });
}
static void bindRef(df::RefEnv &R) {
    R.S.macros.push_back({"mac", [](ref::State &, const std::vector<string> &, const string &) { return true; }});
    for (auto n : {"v0(): int", "v1(int): int", "v2(int, str): int", "v3(int, str, float): int", "v4(int, str, float, any): int", "w0(...): int", "w1(int, ...): int", "w2(int, str, ...): int", "w3(int, str, float, ...): int", "w4(int,str,float,any,...): any",
                   "foreignbool(bool): bool", "foreignint(int): int", "foreignfloat(float): float", "foreignstr(str): str", "foreignany(any): any", "foreignnat(nat): nat"})
        R.S.bind(n, [&R](std::vector<ref::Val> &a) { df::logRef(R.log, "F", a); return ref::Val{}; });
}
// return statements: every return type x value type x nesting
static string rets(uint64_t i) {
    mc::Digits d(i);
    int r = (int)d(NTY + 1), v = (int)d(NTY + 1), sh = (int)d(5);
    string R = r == NTY ? "" : string(": ") + TY[r], V = v == NTY ? "return;" : "return " + prod(v, 1 + (int)(i % 3));
    static const char *SH[] = {"V", "if tb(true) V", "if tb(false) out(1) else { V }", "while tb(true) { V }", "{ { V } } V"};
    return D0 + "func f()" + R + " { " + sub(SH[sh], "V", V) + " }\nf()\n" + (r == NTY || string(TY[r]) == "void" ? "" : "out(f())\n");
}
// constructors and designators
static string ctors(uint64_t i) {
    mc::Digits d(i);
    static const char *A[] = {"", "1", "2.5", "\"s\"", "null", ".a = 1", ".b = 2.5", ".c = \"s\"", ".z = 1", ".a = 2.5", "new S3{1, 2.5, \"s\"}"};
    string a;
    for (int k = 0; k < 4; ++k) { string x = A[d(11)]; if (!x.empty()) a += (a.empty() ? "" : ", ") + x; }
    return "struct S3 { a: int b: float c: str }\nx := new S3{" + a + "}\nout(x)\n";
}
// forward and missing struct references
static string fwd(uint64_t i) {
    mc::Digits d(i);
    static const char *U[] = {"struct A { b: B }", "struct A { b: B? }", "x: B? = y", "func f(b: B) { out(b.v) }", "func f(): B { return new B{4} } out(f().v)", "out(new B{1}.v)", "x := cast(null, B) out(x)", "out(cast(y0, B?))", "x := new B{1} out(x.v)", "func f(b: int): B? { }", "foreign2(1)"};
    static const char *Df[] = {"", "struct B { v: int }", "struct B { w: int }", "struct B { v: B }", "struct B { }", "struct B { v: int v: int }", "struct B { v: int } struct B { v: int }"};
    int u = (int)d(11), df = (int)d(7), order = (int)d(2), u2 = (int)d(11);
    string s = "y0 := cast(null, any)\n";
    string uu = string(U[u]) + "\n" + (u2 != u ? sub(sub(string(U[u2]), "x", "x2"), "f(", "f2(") : "") + "\n";
    return order ? s + Df[df] + "\n" + uu : s + uu + Df[df] + "\n";
}
// every right and wrong statement in every place a statement can have
static const char *PRE0 = "struct S { v: int w: str? n: S? }\nfunc nn(): S? { }\nfunc nw(): str? { }\ng := 1 gf := 2.5 gs := \"q\" gb := true gq := new S{3, nw(), nn()} ga := cast(4, any)\n";
static const char *PRE1 =
    "func one(a: int): int { return a }\nfunc two(a: int, b: float) { out(a, b) }\nfunc none() { out(7) }\nfunc st(x: S): S { return x }\n";
static const char *STM[] = {"one(1)", "one(2.5)", "one()", "one(1, 2)", "nofn(1)", "two(1, 1.5)", "two(1, 1)", "two(true, 1.5)", "none()", "none(1)", "out(one(2.5))", "out(one(3))", "g = 5", "g = 2.5", "gf = 1.5", "gf = 1",
    "g += 1", "g += 1.5", "gs += \"a\"", "gq.v = 6", "gq.v = 2.5", "gq.w = \"s\"", "gq.w = 1", "gq.n = gq", "gq.n = nn()", "gq.n = null", "gq.n.v = 1", "gq.zz = 1", "gq->st()", "g->st()", "1->one()", "2.5->one()", "new S{1, nw(), nn()}",
    "new S{2.5, nw(), nn()}", "new S{1}", "cast(ga, int)", "cast(g, int)", "one(if gb 1 else 2)", "one(if g 1 else 2)", "one(if gb 1 else 2.5)", "ga = 1", "g = ga", "g = cast(ga, int)", "w1(1, 2.5)", "w1(true)", "v2(1, 2)", "v2(1, \"s\")",
    "v3(1, \"s\", 2)", "v4(1, \"s\", 2.5, null)", "v4(1, \"s\", null, null)", "q9 := one(1.5)", "q9 := 1", "q9: int = 1.5", "q9: S? = gq", "ga.v = 1", "ga += 1", "gb = gb && g", "gb = !g", "g = -gs", "gb = g < gs", "g"};
static const int NSTM = 60;
static const char *AT[] = {"{ @ }", "if gb @", "if gb out(1) else @", "if !gb out(1) else @", "if gb { } else { @ }", "if gb @ else out(2)", "if gb out(1) else if gb @", "if gb out(1) else if !gb out(2) else @", "if gb if gb @",
    "while gb { @ break }", "while !gb @", "for i := 0; i < 1; i += 1 { @ }", "for i := 0; i < 1; i += 1 @", "for i := 0; i < 1; @ { i += 1 break }", "for @; gb; g += 1 break", "{ { { @ } } }", "out(1) @ out(2)", "while gb { if gb { break } else @ }",
    "if gb { out(1) @ } else { out(2) @ }", "for i := 0; i < 2; i += 1 { if i == 1 { @ } else { out(i) } }", "while gb { break @ }", "if gb one(1) else one(2) @", "x1 := 1 { x2 := 2 @ }", "while gb { continue_() @ break }"};
static const int NAT = 24;
static string places(uint64_t i) {
    mc::Digits d(i);
    string c = sub(AT[d(NAT)], "@", STM[d(NSTM)]);
    c = sub(c, "continue_()", "if !gb continue");
    switch (d(4)) {
        case 0: return string(PRE0) + PRE1 + c + "\nout(g, gf, gs, gb)\n";
        case 1: return string(PRE0) + PRE1 + "func run(p: int) { " + c + " out(p) }\nrun(8)\nout(g, gf, gs, gb)\n";
        case 2: return string(PRE0) + PRE1 + "func run(p: int): int { " + c + " return p }\nout(run(8))\nout(g, gf, gs, gb)\n";
        default: return string(PRE0) + "func run(p: int) { if p > 0 { l := p " + c + " out(l) } }\n" + PRE1 + "run(8)\nout(g, gf, gs, gb)\n";
    }
}
// every right and wrong expression in every place an expression can have
static const char *EX[] = {"3", "2.5", "gs", "gb", "one(4)", "one(2.5)", "nofn(2)", "none()", "g + 1", "g + gs", "g + gb", "-gs", "!g", "gq.v", "gq.zz", "gq", "null", "cast(ga, int)", "cast(ga, Zz)", "cast(g, int)", "if gb 1 else 2", "if gb 1 else gs",
    "if g 1 else 2", "new S{1, nw(), nn()}.v", "new S{gs, nw(), nn()}", "g < 2", "g < gs", "gb && gb", "gb && g", "ga", "ga + 1", "v1(1)", "v1(gs)", "w1(1, one(2.5))", "gq[1]", "gq->st().v", "st(gq).n.v", "g == gs"};
static const int NEX = 38;
static const char *EAT[] = {"out(@)", "out(1, 2, @)", "out(1, @, 2)", "x9 := @ out(x9)", "x9: int = @ out(x9)", "out(((@)))", "out(1 + @)", "out(@ + 1)", "out(1 - (2 * (@)))", "out(-(@))", "out(!(@))", "one(@)", "one(one(@))", "v2(@, gs)", "v3(1, gs, @)", "v4(1, gs, 2.5, @)",
    "w2(1, @, 3)", "w1(1, 2, 3, 4, 5, @)", "gq = new S{@, nw(), nn()}", "gq = new S{1, @, nn()}", "gq = new S{1, nw(), @}", "gq = new S{.n = nn(), .v = @, .w = nw()}", "out(cast(@, int))", "out(if @ 1 else 2)", "out(if gb @ else 2)", "out(if gb 1 else @)",
    "if @ out(1)", "if gb out(1) else if @ out(2)", "while @ { break }", "for i := @; i < 2; i += 1 { break }", "for i := 0; @; i += 1 { break }", "for i := 0; i < 1; i += @ { }", "gq.v = @", "gq.v += @", "g = @", "g += @", "out((@).v)", "(@).v = 1", "(@)->out()", "(@)->v2(gs)", "out((@)[0])",
    "out(gb && @)", "out(@ || gb)", "out(@ == @)", "gq->st().v = @", "x9 := new S{if gb @ else 1, nw(), nn()}", "out(one(@) + one(@))"};
static const int NEAT = 47;
static string exprs(uint64_t i) {
    mc::Digits d(i);
    string c = sub(EAT[d(NEAT)], "@", EX[d(NEX)]);
    switch (d(3)) {
        case 0: return string(PRE0) + PRE1 + c + "\nout(g, gf, gs, gb)\n";
        case 1: return string(PRE0) + PRE1 + "func run(p: int): int { " + c + " return p }\nout(run(8))\nout(g, gf, gs, gb)\n";
        default: return string(PRE0) + "func run(p: int): int { while p > 0 { " + c + " break } return " + EX[i % NEX] + " }\n" + PRE1 + "out(run(8))\nout(g, gf, gs, gb)\n";
    }
}
// statements which belong only in some places, in every place
static const char *ONLY[] = {"break", "continue", "return 1", "return;", "return p", "use mac(\"a\")", "use mac() as q", "struct In { v: int }", "func In(a: int) { }", "func In() out(3)", "KK :: 4", "q9 := 3", "out(1)", "{ }", "use nomac()", "use mac(1)", "foreach", "else"};
static const int NONLY = 18;
static const char *WHERE[] = {"@", "{ @ }", "{ { @ } out(5) }", "if gb @", "if gb { @ }", "if gb out(1) else @", "if gb out(1) else { @ }", "while gb @", "while gb { @ break }", "while gb { { if gb { @ } } break }", "for @; gb; g += 1 break",
    "for i := 0; i < 1; @ break", "for i := 0; i < 1; @ { i += 1 if i > 3 break }", "for i := 0; i < 1; i += 1 @", "for i := 0; i < 1; i += 1 { out(i) @ }", "for { @ } ; gb; g += 1 break", "for i := 0; i < 1; { @ } { i += 1 }", "while gb { for @; gb; g += 1 break break }",
    "while gb { for i := 0; i < 1; @ break break }", "for i := 0; i < 3; i += 1 { while gb { @ break } }", "while gb { @ @ break }", "if gb { while gb { break } @ }", "while gb { break } @", "if !gb { if gb { } else @ }"};
static const int NWHERE = 24;
static string sites(uint64_t i) {
    mc::Digits d(i);
    string c = sub(WHERE[d(NWHERE)], "@", ONLY[d(NONLY)]), pre = "g := 1 gb := true\n";
    switch (d(7)) {
        case 0: return pre + c + "\nout(g, gb)\n";
        case 1: return pre + "func run(p: int) { " + c + " out(p) }\nrun(8)\nout(g, gb)\n";
        case 2: return pre + "func run(p: int): int { " + c + " return p }\nout(run(8))\nout(g, gb)\n";
        case 3: return pre + "func run(p: int) " + c + "\nrun(8)\nout(g, gb)\n";
        case 4: return pre + "func run(p: int): int " + c + "\nout(run(8))\nout(g, gb)\n";
        case 5: return pre + "func a() { } " + c + " func b() { }\na() b()\nout(g, gb)\n";
        default: return pre + "func run(p: int) { if p > 3 { " + c + " } else { " + c + " } }\nrun(8) run(1)\nout(g, gb)\n";
    }
}
// every spelling of a type in every place of a type
static const char *SPELL[] = {"int", "str", "void", "any", "P", "nat", "Zz", "int?", "str?", "void?", "any?", "P?", "nat?", "Zz?", "int??", "?", "", "3", "if", "int ?", "float?", "bool?", "delegate_", "Int", "VOID"};
static const int NSPELL = 25;
static const char *TPLACE[] = {"x: @ = V out(x)", "{ x: @ = V out(x) }", "func f(a: @) { out(a) } f(V)", "func f(a: int, b: @, c: @) { out(b) } f(1, V, V)", "func f(): @ { return V } out(f())", "func f(): @ { } f()", "func f(a: int): @ { return; } f(1)", "struct T { a: @ } t := new T{V} out(t.a)",
    "struct T { a: int b: @ c: int } t := new T{.b = V, .a = 1, .c = 2} out(t.b)", "x := cast(ga, @) out(cast(x, any))", "x := cast(V, @)", "func f(): @ { return V } x := f() x = f()", "func f(a: @): @ { l: @ = a return l } f(V)", "x: @ = V x = V out(x)",
    "struct T { n: @ m: T? } func none(): T? { } t := new T{V, none()} t.n = V"};
static const int NTPLACE = 15;
static const char *VALS[] = {"3", "\"s\"", "ga", "new P{1}", "mknat()", "null", "vo()", "vi()"};
static string types(uint64_t i) {
    mc::Digits d(i);
    string c = sub(sub(sub(TPLACE[d(NTPLACE)], "V", "$"), "@", SPELL[d(NSPELL)]), "$", VALS[d(8)]), pre = "struct P { v: int }\nga := cast(3, any)\nfunc vo() { }\nfunc vi(): int? { return 4 }\n";
    if (d(2) && c.find("func") == string::npos && c.find("struct") == string::npos) return pre + "func run() { " + c + " }\nrun()\n";
    return pre + c + "\n";
}
// code which never runs: what it declares, and what is wrong in it, counts all the same
static const char *DEADST[] = {"x := 1", "x: int = 2", "x: str = 2", "x := 1 x := 2", "g = 5", "g += 1", "g = gs", "out(g)", "nofn()", "out(zz)", "zz = 1", "x := 1 out(x + gs)", "{ x := 1 }", "{ x := 1 } out(x)", "x := 1 { x := 2 }",
    "for x := 0; x < 2; x += 1 { out(x) }", "while gb { x := 1 break }", "if gb { x := 1 } else { x := 2 }", "if g { }", "return", "return g", "return gs", "return;", "break", "continue", "g == 1", "!g", "-gs", "cast(g, int)", "x := null", "x: Zz = null",
    "s: S = new S{1}", "s := new S{gs}", "s := new S{}", "one(2.5)", "one()", "x := one(g) out(x)", "x: int", "x", "1", "1 + gs", "func q() { }", "struct Q { v: int }", "KK :: 3", "use array(\"int\") as ai", "x := vo()", "vo()", "g = vo()",
    "if gb { break }", "if gb { return g }", "while false { x := 1 }", "if false x := 1", "for x := 0; false; x += 1 { }"};
static const int NDEAD = sizeof(DEADST) / sizeof(DEADST[0]);
static const char *DEADPL[] = {"while false { @ }", "if false { @ }", "if false @", "while false @", "if true { out(1) } else { @ }", "if true out(1) else @", "for i := 0; false; i += 1 { @ }", "for i := 0; false; i += 1 @", "if true { } else if gb { @ } else { @ }",
    "while true { break @ }", "while gb { gb = false continue @ }", "for i := 0; i < 2; i += 1 { continue @ }", "for i := 0; i < 2; i += 1 { break { @ } }", "if gb { while true { break @ } }", "while false { while true { @ } }", "if false { @ } else { @ }",
    "while true { if true break else { @ } }", "while KF { @ }", "if KF { @ }", "if KT { } else { @ }", "if !true { @ }", "while 1 < 0 { @ }", "{ while false { @ } x := 3 out(x) }", "if false { @ } x := 3 out(x)", "while false { @ } x := 3 out(x)", "x := 3 while false { @ } out(x)", "x := 3 if true { } else { @ }",
    "for @ ; false; g += 1 { }", "for x := 0; false; @ { }", "for x := 0; false; x += 1 { @ }"};
static const int NDEADPL = sizeof(DEADPL) / sizeof(DEADPL[0]);
static string dead(uint64_t i) {
    mc::Digits d(i);
    string c = sub(DEADPL[d(NDEADPL)], "@", DEADST[d(NDEAD)]), pre = "KT :: true KF :: false g := 1 gs := \"s\" gb := true struct S { v: int } func one(a: int): int { return a } func vo() { }\n";
    switch (d(7)) {
        case 0: return pre + c + "\nout(g, gb)\n";
        case 1: return pre + "func run(p: int): int { " + c + " return p }\nout(run(8), g, gb)\n";
        case 2: return pre + "func run(p: int) { " + c + " }\nrun(8) out(g, gb)\n";
        case 3: return pre + "func never(p: int): int { " + c + " return p }\nout(g, gb)\n";
        case 4: return pre + "func run(p: int): int { return p " + c + " }\nout(run(8), g, gb)\n";
        case 5: return pre + "func run(p: int): int { if p > 3 return p else return 2 " + c + " }\nout(run(8), g, gb)\n";
        default: return pre + "func never() { } " + c + "\nfunc after(p: int) { " + c + " }\nout(g, gb)\n";
    }
}
// one edit of one token of a program: removed, doubled, exchanged with the next, replaced, something put before it
static const char *PUT[] = {"1", "2.5", "\"s\"", "x", "int", "(", ")", "{", "}", "[", "]", ",", ".", ":", ":=", "::", "=", "+=", "+", "-", "*", "%", "==", "<", "!", "&&", "->", "?", ";", "null", "true", "if", "else", "while", "for", "func", "return", "struct", "new", "cast", "break", "continue", "any", "str", "|", "&", "<<", "foreign"};
static const int NPUT = sizeof PUT / sizeof *PUT, NEDIT = 3 + 2 * NPUT;
static std::vector<std::vector<string>> ET;
static string edited(uint64_t i) {
    int e = (int)(i % NEDIT);
    i /= NEDIT;
    size_t u = 0;
    while (i >= ET[u].size()) i -= ET[u++].size();
    std::vector<string> t = ET[u];
    if (e == 0) t.erase(t.begin() + (long)i);
    else if (e == 1) t.insert(t.begin() + (long)i, t[i]);
    else if (e == 2) { if (i + 1 >= t.size()) return ""; std::swap(t[i], t[i + 1]); }
    else if ((e -= 3) < NPUT) t[i] = PUT[e];
    else t.insert(t.begin() + (long)i, PUT[e - NPUT]);
    return corpus::joined(t);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        static df::Opt opt;
        opt.binder = bind;
        opt.refBinder = bindRef;
        D0 = decls();
        auto fam = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { string s = g(i); if (!s.empty()) df::compare(s, opt); }, [g](uint64_t i) { return g(i); });
        };
        static df::Opt std = df::stdOpt();
        for (auto &u : corpus::units()) ET.push_back(corpus::tokens(u));
        for (auto &u : rn::MORE) ET.push_back(corpus::tokens(u));
        uint64_t nt = 0;
        for (auto &t : ET) nt += t.size();
        mc::family("edited", nt * NEDIT, [](uint64_t i) { string s = edited(i); if (s.empty()) return; df::Duo D(std); D.compile(s); }, [](uint64_t i) { return edited(i); });
        fam("args", 5 * 6 * 7 * 6 * 3, args);
        fam("rets", (NTY + 1) * (NTY + 1) * 5, rets);
        fam("ctors", 11 * 11 * 11 * 11, ctors);
        fam("forward", 11 * 7 * 2 * 11, fwd);
        fam("ops", 17 * NTY * NTY * 3, ops);
        fam("sites", NWHERE * NONLY * 7, sites);
        fam("dead", (uint64_t)NDEADPL * NDEAD * 7, dead);
        fam("types", (uint64_t)NTPLACE * NSPELL * 8 * 2, types);
        fam("places", NAT * NSTM * 4, places);
        fam("exprs", NEAT * NEX * 3, exprs);
        fam("matrix", (uint64_t)NCON * NTY * NTY * (mc::thorough ? 6 : 6), matrix);
    });
}
