// P12: compiling any text ends with success or an error message.
#include "stdref.hpp"
#include "corpus.hpp"
#include "gen.hpp"
using namespace gen;
static const std::vector<string> &U = corpus::units();
static std::vector<std::vector<string>> T;

// A state which is used for several texts; a failed compilation leaves it usable.
struct Host {
    Tiny_State *s = nullptr;
    int full;
    explicit Host(int f) : full(f) { fresh(); }
    ~Host() { Tiny_DeleteState(s); }
    void fresh() {
        if (s) Tiny_DeleteState(s);
        s = Tiny_CreateState();
        if (full) {
            df::stdOpt().binder(s);
            if (full == 2) {
                if (Tiny_CompileString(s, "base", "struct S { a: int n: S? } func f(x: int): int { return x } g := new S{1, s0()} func s0(): S? { } K :: 3 use array(\"int\") as ai h := ai(1)").type != TINY_COMPILE_SUCCESS) mc::fail("base");
            }
        }
    }
    void text(const char *t, size_t n) {
        // exactly the text and its terminator, so that the sanitizer sees reads beyond it
        char *copy = (char *)malloc(n + 1);
        memcpy(copy, t, n);
        copy[n] = 0;
        Tiny_CompileResult r = Tiny_CompileString(s, "text", copy);
        free(copy);
        mc::noteTrace();
        mc::noteTransitions(1);
        if (r.type == TINY_COMPILE_SUCCESS) {
            mc::noteRun();
            mc::noteState(mc::hash(t, n));
            Tiny_StateThread th;
            Tiny_InitThread(&th, s);
            Tiny_StartThread(&th);
            if (Tiny_IsThreadDone(&th)) mc::fail("accepted, but a thread cannot be started\n%s", t);
            Tiny_DestroyThread(&th);
            int pc = 0;
            long k = 0;
            char buf[256];
            while (pc >= 0) {
                if (!Tiny_DisasmOne(s, &pc, buf, sizeof buf)) break;
                if (++k > 200000) mc::fail("accepted, but the code has no end\n%s", t);
            }
            fresh();
        } else if (r.type == TINY_COMPILE_ERROR) {
            size_t len = strnlen(r.error.msg, sizeof r.error.msg);
            if (!len) mc::fail("rejected without a message\n%s", df::clip(t).c_str());
            if (len == sizeof r.error.msg) mc::fail("the message has no end\n%s", df::clip(t).c_str());
            bool blank = true;
            for (size_t i = 0; i < len; ++i) if (!isspace((unsigned char)r.error.msg[i])) blank = false;
            if (blank) mc::fail("rejected with a blank message\n%s", df::clip(t).c_str());
            mc::noteState(mc::hash(r.error.msg, len));
        } else
            mc::fail("the result is neither success nor error\n%s", df::clip(t).c_str());
    }
    void text(const string &t) { text(t.data(), t.size()); }
};
static const char *TOK[] = {"(", ")", "{", "}", "[", "]", ",", ";", ".", "x", "1", "\"s\"", ":", ":=", "=", "?", "+", "-", "!", "&&", "func", "struct", "if", "else", "while", "for", "return", "break", "new", "cast", "use", "as", "null", "int",
                            "S", "f", "g", "h", "K", "::", "+=", "->", "==", "*", "1.5", "true", "'c'", "continue", "str", "any", "void", "...", "foreign", "a", "0x", "@", "\"open", "array", "|", "<<", "//", "&", "_", "'"};
static const int NTOK = sizeof TOK / sizeof *TOK;
static const int CORE = 20;      // used for longer strings: a spread over the above
static const char *TC[] = {"x", ":=", "1", "(", ")", "{", "}", "func", "if", "else", "struct", "S", ":", "return", ",", ".", "new", "=", "-", "while"};
static const unsigned char BY[] = {'a', '_', '0', '9', 'x', '.', '"', '\'', '\\', '/', '*', '\n', ' ', '\t', '\r', '(', ')', '{', '}', '[', ']', ';', ',', ':', '=', '+', '-', '<', '>', '&', '|', '!', '?', '%', '@', '#', '~', 0x01, 0x7f, 0x80, 0xff, 'n', 'e'};
static const int NBY = sizeof BY;
static const unsigned char BC[] = {'a', '0', '.', '"', '\'', '\\', '/', '\n', 'x', '=', '-', ':', '&', 0xff};
static const int NBC = sizeof BC;
static const char *CTX[][2] = {{"", ""}, {"func q() {", "}"}, {"func q(): int {", "}"}, {"struct Q {", "}"}, {"x := ", ""}, {"f(", ")"}, {"if ", "{ }"}, {"while true {", "}"}, {"for ", "{ }"}, {"new S{", "}"}, {"use array(", ") as y"}, {"use ", ""}, {"x := (", ")"}, {"func q(", ") { }"}, {"func q(a: ", ") { }"},
                                {"x: ", ""}, {"g.", ""}, {"g", ""}, {"h[", "] = 1"}, {"cast(", ")"}, {"return ", ";"}, {"if true { } else ", ""}, {"x := if ", ""}, {"for i := 0; i < 3; i += 1 {", "}"}, {"Q :: ", ""}, {"f(1) ", " f(2)"}, {"h[0] ", " 1"}, {"x := 1 + ", " * 2"}, {"\"s\"->", ""}, {"{ {", "} }"}};
static const int NCTX = sizeof CTX / sizeof *CTX;
static const char *SHAPE[][2] = {{"x := @1@", "()"}, {"x := @1", "-"}, {"x := @true", "!"}, {"@@", "{}"}, {"@x := 1@", "{}"}, {"", ""}, {"", ""}, {"", ""}, {"", ""}, {"", ""}};
static string nested(int shape, long n) {
    auto many = [&](const string &a) { string o; o.reserve(a.size() * n); for (long i = 0; i < n; ++i) o += a; return o; };
    switch (shape) {
        case 0: return "x := " + many("(") + "1" + many(")");
        case 1: return "x := " + many("-") + "1";
        case 2: return "x := " + many("!") + "true";
        case 3: return many("{ ") + many("}");
        case 4: return "x := 1" + many(" + 1");
        case 5: return "x := " + many("1 + (") + "1" + many(")");
        case 6: return "g" + many(".n") + " = g";
        case 7: return "f(" + many("f(") + "1" + many(")") + ")";
        case 8: return many("if true ") + "f(1)";
        case 9: return many("if true { } else ") + "{ }";
        case 10: return many("while true ") + "{ }";
        case 11: return "func q() { " + many("while true { ") + many("}") + " }";
        case 12: return "x := " + many("if true ") + "1" + many(" else 2");
        case 13: return "x := h" + many("[h");
        case 14: return many("(");
        case 15: return many("f(");
        case 16: return many("func q() { ");
        case 17: return many("new S{");
        case 18: return many("cast(");
        case 19: return "x := true" + many(" && true");
        case 20: return "x := " + many("if true 1 else ") + "2";
        case 21: return many("for i := 0; i < 1; i += 1 ") + "{ }";
        case 22: return "x := 1" + many("->f()");
        case 23: return "x := h" + many("[0]");
        default: return "x := " + many("1 < 2 == ") + "true";
    }
}
static const int NSHAPE = 25;
static const char *shapeName[] = {"'('", "'-'", "'!'", "'{'", "'+ 1'", "'1 + ('", "'.n'", "'f('", "'if true'", "'else if'", "'while true'", "'while' in a function", "'if' expression conditions", "'[h'", "unclosed '('", "unclosed 'f('", "unclosed 'func'", "unclosed 'new'", "unclosed 'cast('", "'&& true'", "'if' expressions", "'for'", "'->f()'", "'[0]'", "'1 < 2 =='"};
static long depthAt(uint64_t i) { return i < 200 ? (long)i : i < 250 ? 200 + (long)(i - 200) * 16 : 1000; }
// Long tokens and many of the same.
static string longText(int kind, long n) {
    switch (kind) {
        case 0: return string(n, 'a') + " := 1";
        case 1: return "x := \"" + string(n, 's') + "\"";
        case 2: return "x := " + string(n, '7');
        case 3: return "x := 0x" + string(n, 'f');
        case 4: return "x := 1." + string(n, '3');
        case 5: return "// " + string(n, 'c');
        case 6: return string(n, '\n') + "x := 1";
        case 7: return "zz(" + string(n, 'a') + ")";
        case 8: return "f(\"" + string(n, 'a') + "\")";
        case 9: return "struct " + string(n, 'A') + " { a: int }";
        case 10: return "use " + string(n, 'm') + "(\"a\")";
        case 11: return "use array(\"int\") as " + string(n, 'm');
        case 12: return "use array(\"" + string(n, 'm') + "\") as q";
        case 13: return "struct " + string(n, 'A') + " { a: int } use json(\"" + string(n, 'A') + "\")";
        case 14: return "func " + string(n, 'a') + "(x: int): int { return x } use delegate(\"" + string(n, 'a') + "\") as dd";
        case 15: return "struct " + string(n, 'A') + " { a: int } func z(q: " + string(n, 'A') + ") { } use delegate(\"z\") as dd";
        case 16: return "func z(q: int): int { return q } use delegate(\"z\") as " + string(n, 'd');
        case 17: return "x := 1e" + string(n, '9');
        case 18: return "x := \"" + rep("\\n", (int)n) + "\"";
        case 19: return "x: " + string(n, 't') + " = 1";
        case 20: return "g." + string(n, 't') + " = 1";
        case 21: return "@" + string(n, 'z');
        case 22: return "'" + string(n, 'z') + "'";
        case 23: return "struct " + string(n, 'A') + " { a: int } use array(\"" + string(n, 'A') + "\") as q";
        case 24: return "struct Q { " + string(n, 'b') + ": int } use json(\"Q\")";
        case 25: return "x := \"" + string(n, '%') + "\" y := x + 1";
        case 26: return "struct " + string(n, 'A') + " { a: int } func z(x: " + string(n, 'A') + "?) { }";
        case 27: return "struct " + string(n, 'A') + " { a: int } func z(x: " + string(n, 'A') + "?): " + string(n, 'A') + "? { return x } y := z(z(1))";
        case 28: return "struct " + string(n, 'A') + " { a: int } x := new " + string(n, 'A') + "{1} x = 1";
        case 29: return "struct " + string(n, 'A') + " { a: int } x := new " + string(n, 'A') + "{1} y := x + 1";
        case 30: return "struct " + string(n, 'A') + " { " + string(n, 'b') + ": int } x := new " + string(n, 'A') + "{" + string(n, 'b') + " = \"\"}";
        case 31: return "struct " + string(n, 'A') + " { " + string(n, 'b') + ": int } x := new " + string(n, 'A') + "{" + string(n, 'c') + " = 1} y := x." + string(n, 'd');
        case 32: return "func " + string(n, 'a') + "(x: int): int { return x } y := " + string(n, 'a') + "(\"\") z := " + string(n, 'a') + "(1, 2)";
        case 33: return "struct " + string(n, 'A') + " { a: int } use array(\"" + string(n, 'A') + "?\") as q";
        case 34: return "struct " + string(n, 'A') + " { a: " + string(n, 'B') + "? }";
        case 35: return "use array(\"int\") as " + string(n, 'm') + " func z(x: " + string(n, 'm') + "?) { x[0] = \"\" }";
        case 36: return string(n, 'k') + " :: \"" + string(n, 'v') + "\" " + string(n, 'k') + " = 2";
        case 37: return "x := new " + string(n, 'A') + "{1} struct S9 { a: int a: " + string(n, 'A') + " }";
        default: return "zz = %s%n%d%" + string(n, 'd');
    }
}
static const int NLONG = 39;
static string manyOf(int kind, long n) {
    if (kind == 14 && n > 300) n = 300 + n % 50;      // takes quadratic time
    string o;
    auto each = [&](auto f) { for (long i = 0; i < n; ++i) o += f(I(i)); };
    switch (kind) {
        case 0: each([](string i) { return "v" + i + " := 1\n"; }); break;
        case 1: each([](string i) { return "f(" + i + ")\n"; }); break;
        case 2: each([](string i) { return "out(\"s" + i + "\")\n"; }); break;
        case 3: each([](string i) { return "func w" + i + "() { }\n"; }); break;
        case 4: each([](string i) { return "struct W" + i + " { a: int }\n"; }); break;
        case 5: o = "struct W { "; each([](string i) { return "a" + i + ": int "; }); o += "}"; break;
        case 6: o = "func w("; each([](string i) { return "a" + i + ": int, "; }); o += ") { }"; break;
        case 7: o = "func w() { "; each([](string i) { return "a" + i + " := 1 "; }); o += "}"; break;
        case 8: o = "out("; each([](string i) { return i + ", "; }); o += ")"; break;
        case 9: o = "struct W { "; each([](string i) { return "a" + i + ": int "; }); o += "} w := new W{"; each([](string i) { return i + ", "; }); o += "}"; break;
        case 10: o = "x := ai("; each([](string i) { return i + ", "; }); o += ")"; break;
        case 11: o = "use array("; each([](string) { return "\"int\", "; }); o += ") as zz"; break;
        case 12: o = "func w("; each([](string i) { return "a" + i + ": int, "; }); o += ") { } use delegate(\"w\") as dd"; break;
        case 13: o = "struct W { "; each([](string i) { return "a" + i + ": int "; }); o += "} use json(\"W\")"; break;
        case 14: each([](string i) { return "use array(\"int\") as u" + i + "\n"; }); break;
        case 15: each([](string i) { return "C" + i + " :: \"c" + i + "\"\n"; }); break;
        case 16: o = "x := 1\nif x == 1 { "; each([](string) { return "x += 1 "; }); o += "}"; break;
        case 17: each([](string i) { return "struct J" + i + " { a: J" + I(atol(i.c_str()) + 1) + " }\n"; }); o += "struct J" + I(n) + " { a: int } use json(\"J0\")"; break;
        case 18: each([](string) { return "{ z := 1 }\n"; }); break;
        default: each([](string i) { return "w(" + i + ")\n"; });
    }
    return o;
}
static const int NMANY = 20;
// Long runs of what isn't part of the program, at all sorts of places.
static const long RUN[] = {10, 1000, 30000, 100000, 300000, 1000000};
static string runs(uint64_t i) {
    mc::Digits d(i);
    static const char *W[] = {"//\n", "// comment\n", "\n", " ", "//\n ", "\t\r\n", "// \"quoted // again\n\n"};
    static const char *A[] = {"", "out(1", "func w(a: int", "x := 1 + ", "struct W { a: int ", "\"abc\"", "if true { ", "w := new S{", "s0.", "out(\"", "1 /"};
    static const char *B[] = {"", ") ", "): int { return a }", "2", "b: str }", "", "x := 1 }", "1}", "a = 1", "\")", "2"};
    long n = RUN[d(6)];
    const char *w = W[d(7)];
    int k = (int)d(11);
    string o = A[k];
    for (long j = 0; j < n; ++j) o += w;
    return o + B[k];
}
static const uint64_t NRUN = 6 * 7 * 11;
// Every way of using the macros of the library.
static string macros(uint64_t i) {
    mc::Digits d(i);
    static const char *A[] = {"array", "json", "delegate", "nomacro", "x"};
    static const char *P[] = {"", "\"int\"", "\"S\"", "\"f\"", "\"int\", \"str\"", "\"nosuch\"", "\"S?\"", "\"void\"", "\"any\"", "\"\"", "\"ai\"", "\"strlen\"", "\"out\"", "\"s0\"", "\"hs\"", "\"S \"", "\"int): int foo(\"", "1", "x"};
    static const char *N[] = {"", "as q", "as q_get", "as f", "as S", "as ai", "as int", "as strlen", "as q_len", "as g", "as dict", "as array_any", "as q_push_get", "as K", "as"};
    auto one = [&] { string m = A[d(5)], p = P[d(19)], n = N[d(15)]; return "use " + m + "(" + p + ") " + n; };
    string a = one();
    return d.v < 1 ? a : a;
}
static const uint64_t NMAC = 5 * 19 * 15;
static string macroPair(uint64_t i) {
    mc::Digits d(i);
    static const char *M[] = {"use array(\"int\") as q", "use array(\"str\") as q", "use array(\"int\") as q_get", "use array(\"S\") as q_len", "use array(\"q\") as q_push", "use array(\"int\") as q_get_index", "use delegate(\"f\") as q", "use delegate(\"f\") as q_get", "use delegate(\"out\") as q", "use delegate(\"strlen\") as q", "use delegate(\"q_len\") as q2", "use delegate(\"q_get\") as r",
                              "use json(\"S\")", "use json(\"S2\") struct S2 { a: int s: str }", "struct q { a: int }", "func q() { }", "func q_get(a: int): int { return a }", "q := 1", "func f_target() { }", "func q_target(a: any): any { return a }", "struct delegate_int_int { a: int }", "func S2_to_json(x: S2): str { return \"\" } struct S2 { a: int }", "use array(\"int\") as strlen", "use array(\"S2\") as q struct S2 { n: q }",
                              "use json(\"S3\") struct S3 { a: array_any }", "use json(\"S4\") struct S4 { a: S4 b: q }", "func q_to_json(x: q): str { return \"\" }", "use array(\"delegate_int_int\") as q", "use delegate(\"q\") as q", "use delegate(\"delegate_int_int_call\") as q"};
    string a = M[d(30)], b = M[d(30)], c = M[d(30)];
    return a + "\n" + b + "\n" + c;
}
// Every kind of expression (two levels deep, over every kind of leaf) in every place of every kind of statement.
static const char *LEAF[] = {"g", "1", "K", "1.5", "\"s\"", "'c'", "true", "null", "f", "S", "nosuch", "h", "int", "l", ""};
static const int NLEAF = sizeof LEAF / sizeof *LEAF;
static const char *FORM[] = {"_", "(_)", "-_", "!_", "_.a", "_.n", "_[0]", "h[_]", "f(_)", "_->f()", "new S{_, s0()}", "new S{.a = _, .n = s0()}", "cast(_, S)", "cast(_, any)", "if _ 1 else 2", "if true _ else g", "if true 1 else _",
                             "_ + 1", "1 == _", "_ && true", "_(1)", "new _{1}", "strcat(\"\", _)", "_?", "{ _ }", "_ = 1", "_ += 1", "_ := 1", "func z() { _ }", "return _", "_ ;", "(_", "_)", "_, _", "_ _", "_: int", ".a = _", "cast(1, _)"};
static const int NFORM = sizeof FORM / sizeof *FORM;
static const char *STMT[] = {"_", "_ = 1", "_ += 1", "_ = _", "_ |= _", "l = _", "g.a = _", "h[0] = _", "h[_] = _", "x := _", "x: int = _", "x: S? = _", "X :: _", "f(_)", "out(_, _)", "if _ { }", "if _ _ else _", "while _ { break }", "for i := _; i < 3; i += 1 { }",
                             "for i := 0; _; i += 1 { break }", "for i := 0; i < 3; _ { }", "for _; false; l = 1 { }", "return _", "break _", "{ _ }", "foreach _ { }", "func z(): int { _ }", "func z(a: _) { }", "struct Z { _ }", "use array(_) as zz", "x: _ = g"};
static const int NSTMT = sizeof STMT / sizeof *STMT;
static void syntax(uint64_t i, bool deep) {
    mc::Digits d(i);
    string st = STMT[d(NSTMT)], fo = FORM[d(NFORM)];
    int where = (int)d(2);
    string f3 = deep ? FORM[d(NFORM)] : "_";
    Host h(2);
    for (int a = 0; a < NFORM; ++a)
        for (int b = 0; b < NLEAF; ++b) {
            string t = sub(sub(sub(st, "_", "@"), "@", sub(sub(fo, "_", "@"), "@", sub(sub(f3, "_", "@"), "@", FORM[a]))), "_", LEAF[b]);
            h.text(where ? "func zz(l: int): int { " + t + " return l }" : "l := 1 " + t);
        }
}
static string syntaxName(uint64_t i) { mc::Digits d(i); string a = STMT[d(NSTMT)], b = FORM[d(NFORM)]; return a + " with " + b; }
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        for (auto &u : U) T.push_back(corpus::tokens(u));
        // every byte string of up to 2 bytes, longer ones over smaller alphabets; the case fixes all but the last byte
        mc::family("bytes-all", 256, [](uint64_t i) {
            Host h(0);
            if (!i) h.text("");
            for (int b = 0; b < 256; ++b) { char t[2] = {(char)i, (char)b}; h.text(t, strnlen(t, 2)); }
        });
        unsigned nb = mc::thorough ? 3 : 2, nc = mc::thorough ? 5 : 4;
        mc::family("bytes", mc::seqCount(NBY, nb), [](uint64_t i) {
            Host h(0);
            string t;
            for (int k : mc::seqAt(NBY, i)) t += (char)BY[k];
            for (int k = 0; k < NBY; ++k) h.text(t + (char)BY[k]);
        }, [](uint64_t i) { string t; for (int k : mc::seqAt(NBY, i)) t += (char)BY[k]; return t; });
        mc::family("bytes-core", mc::seqCount(NBC, nc), [](uint64_t i) {
            Host h(0);
            string t;
            for (int k : mc::seqAt(NBC, i)) t += (char)BC[k];
            for (int k = 0; k < NBC; ++k) h.text(t + (char)BC[k]);
        });
        unsigned nt = mc::thorough ? 3 : 2, ntc = mc::thorough ? 4 : 3;
        mc::family("tokens", mc::seqCount(NTOK, nt), [](uint64_t i) {
            Host h(2);
            string t;
            for (int k : mc::seqAt(NTOK, i)) { t += TOK[k]; t += ' '; }
            for (int k = 0; k < NTOK; ++k) h.text(t + TOK[k]);
        }, [](uint64_t i) { string t; for (int k : mc::seqAt(NTOK, i)) { t += TOK[k]; t += ' '; } return t; });
        mc::family("tokens-core", mc::seqCount(CORE, ntc), [](uint64_t i) {
            Host h(2);
            string t;
            for (int k : mc::seqAt(CORE, i)) { t += TC[k]; t += ' '; }
            for (int k = 0; k < CORE; ++k) h.text(t + TC[k]);
        });
        mc::family("contexts", NCTX * mc::seqCount(NTOK, mc::thorough ? 2 : 1), [](uint64_t i) {
            Host h(2);
            auto c = CTX[i % NCTX];
            string t;
            for (int k : mc::seqAt(NTOK, i / NCTX)) { t += TOK[k]; t += ' '; }
            for (int k = 0; k < NTOK; ++k) h.text(string(c[0]) + t + TOK[k] + " " + c[1]);
        });
        // every prefix of the corpus programs and every prefix followed by something
        uint64_t total = 0;
        for (auto &u : U) total += u.size();
        auto at = [](uint64_t i, size_t *u) { *u = 0; while (i >= U[*u].size()) { i -= U[*u].size(); ++*u; } return (size_t)i; };
        mc::family("prefixes", total, [at](uint64_t i) {
            size_t u, p = at(i, &u);
            Host h(1);
            string t = U[u].substr(0, p);
            h.text(t);
            for (auto x : {"\"", "'", "\\", "(", "}", "/", "\x80", "0x"}) h.text(t + x);
            h.text(t + U[u].substr(p + 1));                        // one byte missing
            for (int k = 0; k < NBY; ++k) h.text(t + (char)BY[k] + U[u].substr(p + 1));   // one byte replaced
            if (mc::thorough) for (int k = 1; k < 256; ++k) h.text(t + (char)k + U[u].substr(p));   // one byte inserted
        }, [at](uint64_t i) { size_t u, p = at(i, &u); return U[u].substr(0, p); });
        // every token of the corpus programs removed, doubled, exchanged, replaced
        uint64_t toks = 0;
        for (auto &t : T) toks += t.size();
        auto tk = [](uint64_t i, size_t *u) { *u = 0; while (i >= T[*u].size()) { i -= T[*u].size(); ++*u; } return (size_t)i; };
        mc::family("token-mutations", toks, [tk](uint64_t i) {
            size_t u, p = tk(i, &u);
            Host h(1);
            auto &t = T[u];
            string a = corpus::joined(t, 0, p), b = corpus::joined(t, p + 1);
            h.text(a + b);
            h.text(a + t[p] + " " + t[p] + " " + b);
            if (p + 1 < t.size()) h.text(a + t[p + 1] + " " + t[p] + " " + corpus::joined(t, p + 2));
            for (int k = 0; k < NTOK; ++k) { h.text(a + TOK[k] + " " + b); h.text(a + TOK[k] + " " + t[p] + " " + b); }
            for (size_t q = p + 1; q <= t.size(); ++q) h.text(a + corpus::joined(t, q));    // any range removed
            if (mc::thorough)
                for (auto &o : T) for (auto &x : o) h.text(a + x + " " + b);
        }, [tk](uint64_t i) { size_t u, p = tk(i, &u); return corpus::joined(T[u], 0, p); });
        mc::family("syntax", NSTMT * NFORM * 2, [](uint64_t i) { syntax(i, false); }, syntaxName);
        if (mc::thorough) mc::family("syntax-deep", (uint64_t)NSTMT * NFORM * 2 * NFORM, [](uint64_t i) { syntax(i, true); }, syntaxName);
        mc::family("nesting", NSHAPE * 252, [](uint64_t i) { Host h(2); h.text(nested(i % NSHAPE, depthAt(i / NSHAPE))); },
                   [](uint64_t i) { return I(depthAt(i / NSHAPE)) + " times " + shapeName[i % NSHAPE]; });
        mc::family("deep", NSHAPE, [](uint64_t i) { Host h(2); h.text(nested((int)i, 1000000)); },
                   [](uint64_t i) { return string("1000000 times ") + shapeName[i]; });
        mc::family("long", NLONG * 700, [](uint64_t i) { Host h(2); h.text(longText(i % NLONG, (long)(i / NLONG))); if (i / NLONG < 8) h.text(longText(i % NLONG, 1l << (8 + i / NLONG))); },
                   [](uint64_t i) { return df::clip(longText(i % NLONG, (long)(i / NLONG)), 300); });
        static const int C[] = {0, 1, 2, 3, 60, 61, 62, 63, 64, 100, 126, 127, 128, 129, 130, 200, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2000, 3000};
        static const int NC = sizeof C / sizeof *C;
        mc::family("many", NMANY * NC, [](uint64_t i) { Host h(2); h.text(manyOf(i % NMANY, C[i / NMANY])); }, [](uint64_t i) { return df::clip(manyOf(i % NMANY, C[i / NMANY]), 300); });
        mc::family("runs", NRUN, [](uint64_t i) { Host h(2); h.text(runs(i)); }, [](uint64_t i) { string t = runs(i); return "a text of " + I((long)t.size()) + " bytes with a run of comments or blanks: " + df::clip(t, 60); });
        mc::family("macros", NMAC, [](uint64_t i) { Host h(2); h.text(macros(i)); h.text("struct q { a: int }\n" + macros(i)); h.text(macros(i) + "\n" + macros((i * 7 + 3) % NMAC)); }, [](uint64_t i) { return macros(i); });
        mc::family("macro-pairs", 30 * 30 * 30, [](uint64_t i) { Host h(2); h.text(macroPair(i)); }, macroPair);
    });
}
