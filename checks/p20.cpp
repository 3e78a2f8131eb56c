// P20: literals, escapes, comments and layout have their defined meaning.
#include "stdref.hpp"
#include "corpus.hpp"
#include "gen.hpp"
using namespace gen;
static string show(const string &s) { string o; char b[8]; for (unsigned char c : s) { snprintf(b, 8, c >= 32 && c < 127 ? "%c" : "\\%02x", c); o += b; } return o; }
static string strAt(uint64_t i, const string &alpha) { string s; for (int c : mc::seqAt(alpha.size(), i)) s += alpha[c]; return s; }
static string strOf(uint64_t i, const string &alpha, int len) { string s; for (int k = 0; k < len; ++k, i /= alpha.size()) s += alpha[i % alpha.size()]; return s; }
static const char *KW[] = {"null", "true", "false", "if", "func", "foreign", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use", "foreach"};
static const int NKW = 17;
static const char *WORD[] = {"void", "bool", "int", "float", "str", "any", "as", "function", "let", "in"};
static const char *SEP[] = {"\n", "\t", "  ", "\r\n", " //\n", " // x := \"\\ ' { (\n", "\n\n\n", " /// */ \r\n\t", "\v\f", " // a\n// b\n", "\t//\\\n"};
static const int NSEP = 11;
// The token spellings which may stand side by side without anything between.
static bool glue(const string &a, const string &b) {
    auto t = ref::tokenize(a + b);
    return t.size() == 3 && t[0].s == ref::tokenize(a)[0].s && t[1].s == ref::tokenize(b)[0].s && t[0].t == ref::tokenize(a)[0].t && t[1].t == ref::tokenize(b)[0].t &&
           !(t[0].t == ref::T_ERR || t[1].t == ref::T_ERR);
}
struct Unit { string src; std::vector<string> tk; string want; };
static std::vector<Unit> UN;
static string behaviour(const string &src) {
    df::Impl I(df::stdOpt().binder);
    if (!I.compile(src)) return "rejected " + I.err.substr(I.err.rfind('\n') == string::npos ? 0 : I.err.rfind('\n'));
    I.start();
    if (!I.run(200000)) return "endless";
    mc::noteRun();
    return I.log.out;
}
// The original behaves as the original; the changed layout must behave likewise.
static void relayout(size_t u, const string &src) {
    static std::map<size_t, string> memo;
    if (!memo.count(u)) memo[u] = behaviour(UN[u].src);
    string g = behaviour(src);
    mc::noteTrace();
    mc::noteState(mc::hash(src));
    if (g != memo[u]) mc::fail("with another layout the program behaves differently %s\n--- program\n%s\n--- original\n%s", df::differ(memo[u], g).c_str(), show(src).c_str(), UN[u].src.c_str());
}
static const df::Opt &plain() { static df::Opt o; return o; }
static df::Opt valid() { df::Opt o; o.mustAccept = true; return o; }
static string commentBytes(uint64_t i) {
    static const char B[] = "a\r\\/\" \x80\xff\v";
    string c{(char)(i % 255 + 1), B[i / 255 % 9]};
    if (i / 255 / 9) std::swap(c[0], c[1]);
    return c;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        for (auto &s : corpus::units()) UN.push_back({s, corpus::tokens(s), ""});
        // ------------------------------------------------ numbers
        mc::family("ints", mc::thorough ? 20000 : 1500, [](uint64_t i) {      // 32 values per case in three spellings
            string s;
            for (int k = 0; k < 32; ++k) {
                unsigned long v = i * 32 + k;
                char b[400];
                snprintf(b, 400, "out(%lu, 0x%lx, 0x%lX, %05lu)\n", v, v, v, v);
                s += b;
            }
            df::compare(s, valid());
        });
        mc::family("int-powers", 64, [](uint64_t i) {
            string s;
            for (int e = -3; e <= 3; ++e) { unsigned long long v = (1ull << i) + e; if (v > INT64_MAX) continue; char b[400]; snprintf(b, 400, "out(%llu, 0x%llx, 0x%llX, -%llu)\nC%llu :: %llu out(C%llu)\n", v, v, v, v, v, v, v); s += b; }
            if (!s.empty()) df::compare(s, valid());
        });
        mc::family("hex-digits", mc::power(22, 3) + 22 * 22, [](uint64_t i) {
            static const string X = "0123456789abcdefABCDEF";
            string h = i < 22 * 22 ? strOf(i, X, 2) : strOf(i - 22 * 22, X, 3);
            df::compare("out(0x" + h + ", 0x00" + h + " + 1, 0x" + h + h + h + ")", valid());
        });
        mc::family("floats", 200 * 111, [](uint64_t i) {
            string a = I((long)(i % 200) * (i % 200 > 150 ? 100003 : 1)), f = i / 200 < 100 ? I((long)(i / 200)) : rep("0", (int)(i / 200 - 100)) + "5";
            if (i / 200 < 10) f = "0" + f;
            string x = a + "." + f;
            df::compare("out(" + x + ", " + a + ".0, " + x + "125, -" + x + ") F :: " + x + " out(F)", valid());
        });
        mc::family("long-floats", 340 * 5, [](uint64_t i) {          // up to the largest, down to the smallest
            int n = (int)(i % 340);
            string z = rep("0", n), o = rep("73", n / 2);
            static const char *T[] = {"1#.0", "17976931348623157#.5", "0.#1", "2.#25", "@.@"};
            string x = sub(sub(T[i / 340], "#", z), "@", "1" + o);
            df::compare("out(" + x + ", -" + x + ", " + x + " / 3) F :: " + x + " out(F, F * 0.5)", valid());
        }, [](uint64_t i) { return "a float of " + I((long)(i % 340)) + " digits"; });
        mc::family("float-shapes", 40 * 40, [](uint64_t i) {
            int n = (int)(i % 40), m = (int)(i / 40);
            string d = "9182736450";
            string a, b;
            for (int k = 0; k <= n; ++k) a += d[k % 10];
            for (int k = 0; k <= m; ++k) b += d[(k * 3 + 1) % 10];
            df::compare("out(" + a + "." + b + ", 0." + rep("0", m) + a + ", " + a + rep("0", m) + ".5)", valid());
        });
        // ------------------------------------------------ characters and strings
        mc::family("chars", 256 * 4, [](uint64_t i) {
            int c = (int)(i % 256);
            if (!c) return;
            string ch(1, (char)c), src;
            switch (i / 256) {
                case 0: src = "out('" + ch + "')"; break;
                case 1: src = "out('\\" + ch + "')"; break;
                case 2: src = "out(\"x" + ch + "y\")"; break;
                default: src = "out(\"x\\" + ch + "y\", \"\\" + ch + "\")"; break;
            }
            df::compare(src, plain());
        }, [](uint64_t i) { return "character " + I((long)(i % 256)) + " in position " + I((long)(i / 256)); });
        static const string SB = "a\\\"'nt\n/r ";
        mc::family("strings", mc::seqCount(SB.size(), mc::thorough ? 6 : 4), [](uint64_t i) { df::compare("out(\"" + strAt(i, SB) + "\", 1)", plain()); }, [](uint64_t i) { return show("out(\"" + strAt(i, SB) + "\", 1)"); });
        mc::family("char-bodies", mc::seqCount(SB.size(), 3), [](uint64_t i) { df::compare("out('" + strAt(i, SB) + "', 1)", plain()); }, [](uint64_t i) { return show("out('" + strAt(i, SB) + "', 1)"); });
        mc::family("string-constants", mc::seqCount(SB.size(), 3), [](uint64_t i) { string b = strAt(i, SB); df::compare("S :: \"" + b + "\"\nout(S, S == \"" + b + "\")\nfunc f(x: str): str { return x } out(f(\"" + b + "\"))", plain()); });
        // two long literals which differ at one place, or in their length
        mc::family("long-strings", 60 * 40 * 3, [](uint64_t i) {
            static const int L[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131072, 200000, 262144};
            int n = L[i % 60], how = (int)(i / 60 / 40), k = (int)(i / 60 % 40);
            if (k < 26 && k && L[k + 15] > n) return;
            int at = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : k == 3 ? n - 2 : k < 26 ? L[k + 15] - 1 : n * (k - 25) / 16;
            if (at < 0 || at >= n) return;
            string a(n, 'x'), b(n, 'x');
            b[at] = 'y';
            if (how == 1) b = a.substr(0, at);           // a beginning
            if (how == 2) b = a.substr(0, at) + "\\n" + a.substr(at + 1);
            df::compare("a := \"" + a + "\" b := \"" + b + "\" c := \"" + a + "\"\nout(a == b, a == c, strlen(b), stridx(a, " + I(at) + "))" + (how == 1 ? "" : " out(stridx(b, " + I(at) + "))") + (how < 2 ? "S :: \"" + b + "\" T :: \"" + a + "\" out(S == T, S == b, T == a)" : ""), [] { df::Opt o = df::stdOpt(); o.mustAccept = true; return o; }());
        }, [](uint64_t i) { return "literals of length index " + I((long)(i % 60)) + ", difference " + I((long)(i / 60)); });
        // ------------------------------------------------ any short text where an expression stands
        static const string XA = "10xa.\"'\\ -";
        mc::family("expressions", mc::seqCount(XA.size(), mc::thorough ? 6 : 5), [](uint64_t i) { df::compare("a := 3 out(" + strAt(i, XA) + ")", plain()); }, [](uint64_t i) { return show("a := 3 out(" + strAt(i, XA) + ")"); });
        // ------------------------------------------------ operators
        static const string OA = "+-*/%=<>!&|:.,?;";
        mc::family("operators", mc::seqCount(OA.size(), mc::thorough ? 5 : 4), [](uint64_t i) {
            string op = strAt(i, OA);
            if (op.find("//") != string::npos) op += "\n";
            df::compare("a := 7 b := 3 out(a" + op + "b)", plain());
            if (op.size() < 4) {
                df::compare("a := 7 b := 3 a" + op + "b out(a, b)", plain());
                df::compare("a := 7 b := 3 out(a " + op + " b)", plain());
                df::compare("a" + op + "7 out(a)", plain());
                df::compare("func f(a: int" + op + "b: int): int { return a } out(f(1, 2))", plain());
            }
        }, [](uint64_t i) { return "a" + strAt(i, OA) + "b"; });
        mc::family("bools", mc::seqCount(OA.size(), 3), [](uint64_t i) { string op = strAt(i, OA); df::compare("a := true b := false out(a" + op + "b)", plain()); df::compare("a := 1.5 b := 2.5 out(a" + op + "b)", plain()); });
        // ------------------------------------------------ what follows a literal at once
        mc::family("adjacent", 128 * 16 * 3, [](uint64_t i) {
            static const char *L[] = {"0", "1", "12", "00", "0.5", "3.25", "0x1F", "0x0", "10", "07", "1.0", "99", "\"s\"", "'c'", "true", "9."};
            mc::Digits d(i);
            int c = (int)d(128);
            string l = L[d(16)], w(1, (char)c);
            if (c < 33) return;
            int how = (int)d(3);
            if (how == 1) w += "1"; else if (how == 2) w += "f";
            df::compare("n := " + l + w + " = 5 out(n)", plain());
            df::compare("n := " + l + w + " := 5 out(n, " + w + ")", plain());
            df::compare("x := 7 X := 8 n := " + l + w + " out(n)", plain());
            df::compare("out(" + l + w + ")", plain());
            df::compare("func f(a: any, b: any): any { return b } out(f(" + l + ", " + l + w + "))", plain());
            df::compare(w + " := 3 n := " + l + w + " += 2 out(n, " + w + ")", plain());
        });
        // ------------------------------------------------ words
        mc::family("words", (NKW + 10) * 60, [](uint64_t i) {
            string k = i % (NKW + 10) < (uint64_t)NKW ? KW[i % (NKW + 10)] : WORD[i % (NKW + 10) - NKW], w;
            int how = (int)(i / (NKW + 10));
            static const char *POST[] = {"", "x", "1", "_", "A", "s", "_1", "if", "null"};
            if (how < 9) w = k + POST[how];
            else if (how < 15) { static const char *PRE[] = {"x", "y", "N", "if", "z_", "q1"}; w = PRE[how - 9] + k; }
            else if (how < 15 + 8) { size_t n = (size_t)(how - 14); if (n >= k.size()) return; w = k.substr(0, n); }
            else if (how < 23 + 8) { size_t n = (size_t)(how - 22); if (n >= k.size()) return; w = k.substr(n); }
            else if (how == 31) { w = k; w[0] = (char)toupper(w[0]); }
            else if (how == 32) { for (char c : k) w += (char)toupper(c); }
            else if (how < 42) { size_t n = (size_t)(how - 33); if (n >= k.size()) return; w = k; w[n] = w[n] == 'q' ? 'r' : 'q'; }
            else if (how < 52) { size_t n = (size_t)(how - 42); if (n + 1 >= k.size()) return; w = k; std::swap(w[n], w[n + 1]); }
            else return;
            df::compare(w + " := 5 out(" + w + ") " + w + " += 2 out(" + w + ")", plain());
            df::compare("func " + w + "(a: int): int { return a + 1 } out(" + w + "(2))", plain());
            df::compare("func f(" + w + ": int): int { return " + w + " * 2 } out(f(4))", plain());
            df::compare("struct S { " + w + ": int } s := new S{3} s." + w + " = 9 out(s." + w + ", new S{." + w + " = 1})", plain());
            df::compare("struct " + w + " { v: int } s := new " + w + "{3} func f(p: " + w + "): int { return p.v } out(f(s))", plain());
            df::compare(w + " :: 12 out(" + w + ")", plain());
            df::compare("out(" + w + ")", plain());
            df::compare("x := 1 " + w + " := 2 out(x, " + w + ")", plain());
        });
        mc::family("identifiers", mc::seqCount(7, mc::thorough ? 5 : 4), [](uint64_t i) {
            string w = strAt(i, string("aZ_09x") + "\xe9");
            df::compare("q" + w + " := 5 " + w + " := 6 out(q" + w + ", " + w + ")", plain());
            df::compare("q" + w + " := 5 out(q" + w + ")", plain());
        });
        // ------------------------------------------------ layout
        static uint64_t gaps = 0;
        gaps = 0;
        for (auto &u : UN) gaps += u.tk.size() + 1;
        mc::family("one-gap", gaps * (NSEP + 1), [](uint64_t i) {
            int sp = (int)(i % (NSEP + 1));
            uint64_t g = i / (NSEP + 1);
            size_t u = 0;
            while (g > UN[u].tk.size()) { g -= UN[u].tk.size() + 1; ++u; }
            auto &t = UN[u].tk;
            string s;
            if (sp == NSEP && (g == 0 || g == t.size() || !glue(t[g - 1], t[g]))) return;
            for (size_t k = 0; k <= t.size(); ++k) {
                s += k == g ? (sp == NSEP ? "" : SEP[sp]) : " ";
                if (k < t.size()) s += t[k];
            }
            relayout(u, s);
        });
        mc::family("all-gaps", UN.size() * (NSEP + 1) * (NSEP + 1), [](uint64_t i) {
            size_t u = i % UN.size();
            int a = (int)(i / UN.size() % (NSEP + 1)), b = (int)(i / UN.size() / (NSEP + 1));
            auto &t = UN[u].tk;
            string s;
            for (size_t k = 0; k <= t.size(); ++k) {
                int sp = k % 2 ? a : b;
                bool no = sp == NSEP && k && k < t.size() && glue(t[k - 1], t[k]) && (k < 2 || !(k >= 2 && s.size() && glue(t[k - 2], t[k - 1] + t[k]) && false));
                s += sp < NSEP ? SEP[sp] : no ? "" : " ";
                if (k < t.size()) s += t[k];
            }
            // tokens which all touch may join three at a time
            if (a == NSEP || b == NSEP) {
                auto x = ref::tokenize(s), y = ref::tokenize(corpus::joined(t));
                if (x.size() != y.size()) return;
                for (size_t k = 0; k < x.size(); ++k) if (x[k].t != y[k].t || x[k].s != y[k].s) return;
            }
            relayout(u, s);
        });
        if (mc::thorough)
            mc::family("two-gaps", gaps * 40 * 4, [](uint64_t i) {
                int sp = (int)(i % 4);
                uint64_t d = i / 4 % 40, g = i / 160;
                size_t u = 0;
                while (g > UN[u].tk.size()) { g -= UN[u].tk.size() + 1; ++u; }
                auto &t = UN[u].tk;
                if (g + 1 + d > t.size()) return;
                string s;
                static const char *P[] = {" //\n", "\n", " // \"x\n", "\r\n"};
                for (size_t k = 0; k <= t.size(); ++k) { s += k == g || k == g + 1 + d ? P[sp] : " "; if (k < t.size()) s += t[k]; }
                relayout(u, s);
            });
        mc::family("comments", mc::seqCount(9, 5), [](uint64_t i) {      // any comment text, also at the end of the source
            string c = strAt(i, "a\"'\\/{ *\t");
            df::compare("out(1) //" + c + "\nout(2)", valid());
            df::compare("out(1) //" + c, valid());
        }, [](uint64_t i) { return "//" + strAt(i, "a\"'\\/{ *\t"); });
        // any two bytes in a comment: only the end of the line ends it
        mc::family("comment-bytes", 255 * 18, [](uint64_t i) {
            string c = commentBytes(i);
            if (c.find('\n') != string::npos) return;
            df::compare("out(1) //" + c + " out(9)\nout(2) //" + c + "\r\n//" + c + "out(8)", valid());
        }, [](uint64_t i) { return "a comment with the bytes " + I((unsigned char)commentBytes(i)[0]) + " " + I((unsigned char)commentBytes(i)[1]); });
    });
}
