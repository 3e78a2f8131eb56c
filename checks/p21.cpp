// P21: compile errors name the file and the line of the offending construct.
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
// Everything the constructs refer to; four lines, so that line numbers never coincide by accident.
static const char *DECL =
    "struct S { a: int n: S? }\nfunc f(x: int): int { return x } func two(x: int, s: str): str { return s } func v() { } func s0(): S? { }\n"
    "g := new S{1, s0()} K :: 3 use array(\"int\") as ai h := ai(1) i := 1 fl := 1.5 st := \"s\" bo := true\n"
    "struct Big { x: float s: str } sn := s0() an := cast(g, any)\n";
// Erroneous expressions; those with a '&' are wrong because something is missing after them.
static const char *EXPR[] = {
    "(1 + \"s\")", "(i + fl + bo)", "(\"a\" * 2)", "(true % 2)", "(1 && true)", "(true || 1)", "(1.5 | 2)", "(\"a\" < \"b\")", "(i << bo)", "-\"s\"", "!1", "!st",
    "nope", "nope(1)", "nope.a", "nope[1]", "1->nope()", "f(f(1), 2)", "f(1, 2)", "f(\"s\")", "two(1, 2)", "two(1, \"s\", 3)", "two(\"s\", 1)", "f(1.5)", "f(null)", "f(sn)",
    "g.zz", "g.a.b", "i.a", "st.len", "g.n.zz", "sn.a2", "h.a", "fl[0]", "i[1]", "h[\"s\"]", "h[1.5]", "g[0]",
    "new S{1}", "new S{1, 2, 3}", "new S{\"s\", s0()}", "new S{.a = 1, .a = 2}", "new S{.zz = 1, .a = 1}", "new S{.a = 1}", "new Nope{1}", "new S{1, .n = s0()}", "new Big{1, \"s\"}", "new int{1}",
    "cast(1, int)", "cast(an, Nope)", "cast(g, S)", "cast(st, any2)", "(if 1 2 else 3)", "(if true 1 else \"s\")", "(if bo g else 1)", "(1 + v())", "f(v())",
    "(1 + )", "(+ 1)", "()", "(1 2)", "f(1 2)", "f(1,,2)", "&cast(1)", "new {1} 1", "new S 1 2", "(1 + * 2)", "@", "$1", "'ab'", "&(if true 1)", "g. 1", "g.1", "h[1 2]", "h[]", "(1 := 2)", "(i = 2)", "&(1",
    "'", "#", "(i == )", "(1 ? 2)", "(func)", "(return)", "(while)", "new S{.a 1}", "new S{.1 = 2}", "cast(an int)", "~1", "`x`",
};
static const int NE = sizeof EXPR / sizeof *EXPR;
// Erroneous statements which are possible everywhere.
static const char *STMT[] = {
    "i = \"s\"", "i = 1.5", "i += \"s\"", "st -= \"s\"", "bo += 1", "fl |= 1", "g.a = \"s\"", "g.zz = 1", "g.n.q = 1", "h[0] = \"s\"", "h[\"s\"] = 1", "st[0] = 1", "fl[0] += 1", "nope = 1", "nope.a = 1", "nope[0] = 1", "K = 4", "K += 1", "1 = 2", "f(1) = 2",
    "f(1) := 2", "g.a := 2", "(i) + 1", "&i", "i + 1", "q1: int = \"s\"", "q1: Nope = 1", "q1: int = null", "q1: S = sn", "&q1: int", "q1: = 3", "q1 := q1", "q1 := v()", "q1 :=  )", "if 1 { }", "if st { }", "if { }", "while 1 { }", "while \"s\" { }", "while { }",
    "for z := 0; 1; z += 1 { }", "for z := 0; z < 3 { } z", "for z := 0 z < 3; z += 1 { }", "for ; ; { }", "for z := 0; z < 3; z { }", "if true else { }", ") i", "] i", "&struct", "&use", "foreign", "&new S{1, s0()} i", "&1 2", "&\"s\" 1", "&g", "&g.a", "&h[0]", "= 1 2", ", 1", ": int 1", ":= 1 2",
    "func (x: int) { }", "\"s\"->nope()", "i->two()", "S = 1", "f = 1", "cast(an, int) = 1", "null = 1",
    "sn = 1", "g = sn", "g = null", "sn = null i = 2", "i = an", "v() v(1)", "v() = 1", "st = i", "fl = i + st", "h = g", "an.a = 1", "sn.zz = 1", "g..a = 1", "h[0 = 1", "q1 :: i", "q1 :: f(1)", "i :: 1", "K :: 2",
};
static const int NS = sizeof STMT / sizeof *STMT;
// Only outside of a loop, only in a function, only at the top level.
static const char *NOLOOP[] = {"break", "continue"};
static const char *INFN[] = {"return \"s\"", "return g", "return;", "return 1.5", "struct Q2 { a: int }", "func q2() { }", "use array(\"str\") as q2", "b: int = 1 b := 2", "p := 1 p := 2"};
static const char *INVOID[] = {"return 1", "return nope;", "return )"};
static const char *TOP[] = {
    "i := 2", "i: int = 2", "struct S { a: int }", "struct Q { a: int a: str }", "struct Q { }", "struct Q { a int }", "struct Q { a: } 1", "struct { a: int }", "struct Q a", "&func", "func q1(a: int, a: int) { }", "func q1(a) { }", "func q1(a:) { }", "func q1 { }", "func q1(a: int): { }", "func q1(a: int) }", "func q1(a: int { }", "func 1() { }",
    "use nope(\"a\") as b", "use array(\"Nope\") as b", "use array(1) as b", "use array(\"int\", \"b\") as b", "use array() as b", "use json(\"Nope\") as b", "use json(\"S\") as b", "use delegate(\"nope\") as b", "use 1", "use array(\"int\") as 1", "&use array(\"int\") as", "&use json(", "&use array(\"int\") b 1",
    "return 1", "return;", "return \"s\"", "foreign f2() 1", "struct Q { a: Nope } g2 := new Q{1}", "func q1(a: Nope) { } q1(1)", "func q1(): int { return \"s\" }", "func q1(): Nope { return g }", "func q1() { return 1 }", "func q1(x: int): int { return x + st }", "func q1(x: int) { x.a = 1 }", "func q1(x: int) { zz = x }", "func q1(x: int) { break }", "func q1(x: int) { x := 1 y := 1 y := 2 }",
    "func q1(...) { }", "func q1(x: int, ...) { }", "K :: 3", "K := 2", "else { }",
};
template <class T, size_t N> static constexpr int cnt(T (&)[N]) { return (int)N; }
// Contexts: '@' is the construct; everything else is right.
static const char *SCTX[] = {
    "@", "{ @ }", "{\n@\n}", "{\nf(1)\n{\n@\n}\n}", "func q() {\n@\n}", "func q(b: int): int {\nb += 1\n@\nreturn b\n}", "if true {\n@\n}", "if true {\n} else {\n@\n}", "if i == 1 {\n} else if i == 2 {\n@\n} else {\n}", "func q() { }\n\n@ f(3)",
    "while true {\n@\n}", "for z9 := 0; z9 < 3; z9 += 1 {\n@\n}", "func q() {\nfor z9 := 0;\nz9 < 3;\nz9 += 1\n{\nif z9 == 1 {\nf(z9)\n}\n@\nf(z9)\n}\n}", "f(1) @", "f(\n1\n) @", "func q() { } func r() { @ }",
};
static const int NSCTX = cnt(SCTX);
static const int LOOPS = 10;      // of these, from 10 to 12 are loops
static const char *ECTX[] = {
    "x9 := @", "x9 :=\n@", "gather(@)", "gather(1,\n@,\n2)", "gather(1,\n2,\n@\n)", "x9: int =\n@", "i =\n@", "i +=\n@", "g.a = @", "h[\n@] = 1", "h[0] =\n\n@", "if @ {\n}", "if\n@\n{\n}", "while @ {\n}", "while\n@\n{\n}", "for z9 := @; z9 < 3; z9 += 1 {\n}", "for z9 := 0;\n@;\nz9 += 1 {\n}", "for z9 := 0; z9 < 3;\nz9 += @\n{\n}",
    "func q(): any {\nreturn @\n}", "x9 := new S{@, s0()}", "x9 := new S{\n1,\n@\n}", "x9 := new S{\n.n =\ns0(),\n.a =\n@\n}", "x9 := 1 +\n@", "x9 := 1\n+ @\n* 2", "x9 := @\n+ 1", "x9 := if bo\n@ else\n1", "x9 := if bo\n1\nelse\n@", "x9 := if @\n1\nelse 2", "x9 := -@", "x9 := !@", "x9 := cast(\n@,\nint)", "x9 := h[\n@\n]", "f(\nf(\n@\n)\n)",
    "x9 := (\n@\n)", "x9 := bo &&\n@", "x9 := @ ||\nbo", "g.a\n= @", "func q(a: int): int {\nb := a\nif a > 0 {\nreturn f(\n@)\n}\nreturn b\n}",
};
static const int NECTX = cnt(ECTX);
// What can stand before; '#' is a number.  None of them is wrong.
static const char *PRE[] = {
    "w# := \"a\\\nb\" ", "w# := '\\\n' ",     "\n", "// comment\n", "\r\n", " \t ", "w# := 1\n", "w# := \"a\nb\n\nc\"\n", "w# := \"a\\nb\" ", "func w#() {\ngather(\"in\n\")\n}\n", "struct W# {\na: int\n\nb: str }\n", "gather(1,\n2,\n\"// no comment\",\n3)\n", "// \"not a string\n", "use array(\"float\") as w#\n", "struct J# {\na: int }\nuse json(\"J#\")\n", "w# := '\\n'\n",
    "\n\n\n\n\n\n\n\n\n\n\n\n", "// %s %d %n \\\n", "func w#(x: int): int { return x }\nuse delegate(\"w#\") as d#\n", "w# := \"\\\"\\\\\"\n", "f(\n1\n)\n", "w# :: \"k\nk\"\n", "if true {\n} else {\n}\n", "for z# := 0; z# < 1; z# += 1 {\n}\n",
    "// ------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------\n", "\f", "w# := \"long ................................................................................................................................................................................................................................................................................................ long\"\n",
};
static const int NP = cnt(PRE);
static const char *POST[] = {"", "\n", "\nf(1)\n", "\n\nx7 := \"a\nb\"\n// the end", " // trailing comment\n", " \r\nfunc x7() {\n}\n"};
static const int NPOST = cnt(POST);
static const char *FILES[] = {"main", "dir/some other.tiny", "a(3)", "%s%d", "x", "C:\\x.tiny", "0123456789012345678901234567890123456789012345678901234567890123456789"};
static const int NF = cnt(FILES);

// '@...@' is the part which does not fit; a '~' is a place where a line may end.
static const char *MIS[] = {
    "f(~(@\"s\"@~)~)", "two(~1,~(@2@~)~)", "f(~((@g@~)~)~)", "x9 := strlen(~(@1@~)~)", "two(~(@\"q\"@~),~\"s\"~)", "f(~(~f(~(@\"s\"@~)~)~)~)", "func q(a: int, b: str): int {~return f(~(@b@~)~)~}", "if f(~(@\"s\"@~)~) == 1 {~}",
    "f(~@\"s\"@~)", "f(~@st@~)~f(2)", "f(~@g@~)", "f(~@sn@~)", "f(~@f@~)", "two(~1,~@2@~)", "two(~@\"q\"@,~\"s\"~)", "two(~1,~@f(1)@~)", "@\"s\"@~->f()", "1~->two(~@2@~)", "gather(~1,~f(~@fl@~),~2)",
    "two(~1,~two(~@bo@,~\"s\"~)~)", "f(f(f(~@h@~)))", "func q(a: int, b: str): int {~return f(~@b@~)~}", "func q(a: int, b: str): int {~a =~f(a)~two(~a,~@a@)~return a~}",
    "while f(~@\"s\"@~) == 1 {~}", "if f(~@\"s\"@~) == 1 {~}", "x9 := new Big{~1.5,~strlen(~@1@~)~}", "h[f(~@\"s\"@~)] =~1", "x9 := strlen(~@1@~)", "x9 := substr(~\"abc\",~@\"1\"@,~2)", "x9 := substr(~\"abc\",~0,~@\"2\"@)", "x9 := ston(~@1@)", "x9 := ai_len(~@g@~)", "ai_push(~h,~@\"s\"@~)", "ai_push(~@\"s\"@,~1~)",
};
static const int NMIS = sizeof MIS / sizeof *MIS;
static const int NSPREAD = 5;
static string spreadOut(const string &m, int how) {
    string o;
    int k = 0;
    for (char c : m) {
        if (c != '~') { o += c; continue; }
        ++k;
        o += how == 0 ? "\n" : how == 1 ? " " : how == 2 ? (k % 2 ? "\n" : " ") : how == 3 ? (k % 2 ? " " : "\n") : "\n\n// x\n";
    }
    return o;
}
struct Case { string construct, ctx; bool next = false; };
static std::vector<Case> cases() {
    static std::vector<Case> c;
    if (c.empty()) {
        auto add = [&](string s, const char *x) {
            bool next = s[0] == '&';
            c.push_back({next ? s.substr(1) : s, x, next});
        };
        for (auto e : EXPR) for (auto x : ECTX) add(e, x);
        for (auto s : STMT) for (auto x : SCTX) add(s, x);
        for (auto s : NOLOOP) for (int k = 0; k < NSCTX; ++k) if (k < LOOPS || k > 12) add(s, SCTX[k]);
        for (auto s : INFN) for (auto x : {"func q(b: int): int {\n@\nreturn b\n}", "func q(b: int): int {\nif b > 0 {\nf(b)\n} else {\n@\n}\nreturn b\n}", "func q(b: int): int {\nwhile true {\n@\n}\nreturn b\n}", "func q0() {\n}\nfunc q(b: int): int {\nf(b)\n@\nreturn b\n}"}) add(s, x);
        for (auto s : INVOID) for (auto x : {"func q(b: int) {\n@\n}", "func q() {\nif true {\nf(1)\n} else {\n@\n}\n}", "func q(b: int) {\nwhile true {\n@\n}\n}"}) add(s, x);
        for (auto s : TOP) for (auto x : {"@", "f(1)\n@\nf(2)", "f(1) @ f(2)", "func q9() {\n}\n@\n\nfunc q8() { }"}) add(s, x);
    }
    return c;
}
static string number(const char *t, int k) {
    string o;
    for (; *t; ++t) if (*t == '#') o += I(k); else o += *t;
    return o;
}
static int lineAt(const string &s, size_t n) { int l = 1; for (size_t i = 0; i < n; ++i) if (s[i] == '\n') ++l; return l; }
static TINY_FOREIGN_FUNCTION(fAny) { return Tiny_Null; }
static Tiny_State *hostState() {
    Tiny_State *s = Tiny_CreateState();
    df::bindStdImpl(s);
    Tiny_BindFunction(s, "gather(...): any", fAny);
    return s;
}
// Which lines may be reported: those of the construct alone.
static void oneCase(const Case &c, const string &pre, const char *post, const char *file, int history, const string &line = "") {
    string ctx = c.ctx;
    size_t at = ctx.find('@');
    string text = (history == 1 ? "" : string(DECL)) + pre + ctx.substr(0, at);
    int first = lineAt(text, text.size());
    text += line;
    text += c.construct;
    text += ctx.substr(at + 1) + post;
    // Some constructs are wrong because of what follows; then it is a later token which is wrong.
    int last = c.next ? lineAt(text, text.size()) : first;
    Tiny_State *s = hostState();
    if (history == 1) {                       // the declarations come from an earlier compilation
        if (Tiny_CompileString(s, "earlier", DECL).type != TINY_COMPILE_SUCCESS) mc::fail("declarations");
    } else if (history == 2) {                // an earlier compilation failed
        if (Tiny_CompileString(s, "failed", "\n\n\n\n\n\n\n\n\n\n\n\n\nx := 1 +").type != TINY_COMPILE_ERROR) mc::fail("no error");
    } else if (history == 3) {                // several succeeded
        Tiny_CompileString(s, "one", "\n\n\n\no1 := 1\nfunc o2() {\n\n\n}\n");
        Tiny_CompileString(s, "two", "o3 := \"a\n\n\nb\"");
    }
    Tiny_CompileResult r = Tiny_CompileString(s, file, text.c_str());
    mc::noteTrace(); mc::noteTransitions(1);
    if (r.type != TINY_COMPILE_ERROR) mc::fail("`%s` in %s is accepted\n%s", c.construct.c_str(), c.ctx.c_str(), text.c_str());
    string m(r.error.msg);
    string want = string(file) + "(";
    bool ok = false;
    int l = first;
    for (; l <= last; ++l) if ((ok = m.find(want + I(l) + ")") != string::npos)) break;
    if (ok) {                                 // the lines around it are quoted, when they are not too long
        size_t b = 0, e, size = 0;
        string quoted;
        for (int k = 1; b <= text.size(); ++k, b = e + 1) {
            e = std::min(text.find('\n', b), text.size());
            if (abs(k - l) > 3 || (b == text.size() && k > 1)) continue;
            quoted += I(k) + (k == l ? " ->\t" : "\t") + text.substr(b, e - b) + "\n";
            size += e - b + 12;
        }
        if (size < 400 && m.find("\n" + quoted) == string::npos) mc::fail("the message for `%s` does not quote\n%s\nbut is\n%s", c.construct.c_str(), quoted.c_str(), m.c_str());
    }
    if (!ok) mc::fail("the message for `%s` does not name %s line %d:\n%s\n--- for\n%s", c.construct.c_str(), file, first, m.c_str(), text.c_str());
    mc::noteState(mc::hash(m.data(), m.size()));
    Tiny_DeleteState(s);
}
static string preAt(uint64_t i) {
    auto q = mc::seqAt(NP, i);
    string o;
    int k = 0;
    for (int x : q) o += number(PRE[x], k++);
    return o;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
    static auto C = cases();
    static const uint64_t NC = C.size();
    auto describe = [](const Case &c) { return "`" + c.construct + "` in " + c.ctx; };
    // every construct in every context, alone, after each single layout, after each history
    mc::family("construct", NC * 4, [&](uint64_t i) { oneCase(C[i % NC], "", POST[(i / NC) % 4], "main", 0); },
               [=](uint64_t i) { return describe(C[i % NC]); });
    mc::family("layout", NC * NP, [&](uint64_t i) { oneCase(C[i % NC], number(PRE[i / NC], 0), POST[i % NPOST], FILES[i % NF], (int)(i / NPOST % 4)); },
               [=](uint64_t i) { return describe(C[i % NC]) + " after layout " + I(i / NC); });
    mc::family("history", NC * 4 * NF, [&](uint64_t i) { uint64_t k = i / NC; oneCase(C[i % NC], "\n", "\n", FILES[k / 4], (int)(k % 4)); },
               [=](uint64_t i) { return describe(C[i % NC]) + " history " + I(i / NC % 4); });
    // right in itself but wrong where it stands, spread over lines: the operand is on a line of its own
    mc::family("misfits", (uint64_t)NMIS * NSPREAD * 4 * NP, [&](uint64_t i) {
        mc::Digits d(i);
        string m = MIS[d(NMIS)];
        int spread = (int)d(NSPREAD), history = (int)d(4);
        string text = spreadOut(m, spread);
        size_t at = text.find('@'), end = text.find('@', at + 1);
        oneCase({text.substr(at + 1, end - at - 1), (text.substr(0, at) + "@" + text.substr(end + 1))}, number(PRE[d(NP)], 0), POST[i % NPOST], FILES[i % NF], history); },
        [](uint64_t i) { mc::Digits d(i); string m = MIS[d(NMIS)]; return spreadOut(m, (int)d(NSPREAD)); });
    // longer layouts for one construct of every kind
    static std::vector<int> few;
    for (size_t k = 0; k < C.size(); ++k) if (k % (mc::thorough ? 7 : 97) == 3) few.push_back((int)k);
    static const uint64_t NL = mc::seqCount(NP, mc::thorough ? 3 : 2);
    mc::family("layouts", NL * few.size(), [&](uint64_t i) { oneCase(C[few[i % few.size()]], preAt(i / few.size()), POST[i % NPOST], "main", 0); },
               [=](uint64_t i) { return describe(C[few[i % few.size()]]) + " layouts"; });
    // every line number
    static const int LINES = mc::thorough ? 3000 : 400;
    static const int REP[] = {0, 40, 400, 1000, 3000};
    mc::family("line", (uint64_t)LINES * 5 * 3, [&](uint64_t i) {
        int n = (int)(i % LINES);
        int kind = (int)(i / LINES % 3);
        string pre = kind == 0 ? string(n, '\n') : kind == 1 ? rep("f(1) // c\n", n) : "w := \"" + string(n, '\n') + "\"";
        oneCase(C[REP[i / LINES / 3] % NC], pre, "\n\n", "main", 0); },
               [=](uint64_t i) { return "line " + I(i % LINES); });
    // far from the start of the file, in lines and in characters
    static const long FAR[] = {4095, 8190, 16380, 32740, 32766, 32767, 32768, 65500, 65534, 65535, 65536, 70000, 131072, 300000, 1000000};
    mc::family("far", 15 * 5 * 5, [&](uint64_t i) {
        long n = FAR[i % 15];
        int kind = (int)(i / 15 % 5);
        if (kind == 1 && n > 140000) return;
        string pre = kind == 0 ? string(n, '\n') : kind == 1 ? rep("f(1)\n", (int)n / 5) : kind == 2 ? "// " + string(n, 'x') + "\n" : kind == 3 ? rep("// c\n", (int)n / 5) : "w := \"" + string(n, 'y') + "\"\n\n";
        oneCase(C[REP[i / 75] % NC], pre, "\n\n", "main", 0); },
               [](uint64_t i) { return I(FAR[i % 15]) + " characters before it"; });
    // anything before it on its own line, and long lines
    static const int LEN = mc::thorough ? 1500 : 600;
    mc::family("column", (uint64_t)LEN * 5 * 2, [&](uint64_t i) {
        int n = (int)(i % LEN);
        oneCase(C[REP[i / LEN / 2] % NC], i / LEN % 2 ? "// " + string(n, 'x') + "\n" : string("\n"), "\n\n", "main", 0, string(n, ' ')); },
               [=](uint64_t i) { return "column " + I(i % LEN); });
    });
}
