// P01: operators.
#include "direct.hpp"
#include "gen.hpp"
#include <cmath>
using namespace gen;

struct V { const char *type; string text; bool neg; };   // neg: not a single literal token
static std::vector<V> vals;
static const char *OPS[] = {"+", "-", "*", "/", "%", "|", "&", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"};
static const int NOPS = 17;

static void alphabet() {
    for (auto s : {"0", "1", "2", "3", "7", "62", "127", "128", "255", "256", "32768", "65535", "65536", "16777216", "2147483647", "2147483648",
                   "4294967295", "4294967296", "9007199254740993", "4611686018427387904", "9223372036854775807"})
        vals.push_back({"int", s, false});
    for (auto s : {"-1", "-2", "-7", "-128", "-129", "-256", "-2147483648", "-2147483649", "-4294967296", "-9223372036854775807"})
        vals.push_back({"int", s, true});
    vals.push_back({"int", "(-9223372036854775807 - 1)", true});
    for (auto s : {"0.0", "1.0", "1.5", "2.0", "0.1", "3.25", "255.0", "9007199254740993.0", "123456789012345678901234567890.5"})
        vals.push_back({"float", s, false});
    for (auto s : {"-1.0", "-0.5", "-2.75", "(0.0 / 0.0)", "(1.0 / 0.0)", "(0.0 * -1.0)"}) vals.push_back({"float", s, true});
    vals.push_back({"bool", "true", false});
    vals.push_back({"bool", "false", false});
    for (auto s : {"\"\"", "\"a\"", "\"ab\"", "\"b\""}) vals.push_back({"str", s, false});
    vals.push_back({"str", "hs(\"a\")", true});
    vals.push_back({"any", "null", true});
    vals.push_back({"any", "cast(1, any)", true});
    vals.push_back({"any", "cast(1.0, any)", true});
    vals.push_back({"any", "cast(\"a\", any)", true});
    vals.push_back({"any", "cast(true, any)", true});
}
// Every way to write an operand whose value is v, inside the function `run`.
static std::vector<string> forms(const V &v, const char *n) {
    string N = n;
    std::vector<string> f = {v.text, "(" + v.text + ")", "g" + N, "p" + N, "l" + N, "bx" + N + ".v", "idf" + N + "(p" + N + ")",
                             "(if tb(true) l" + N + " else p" + N + ")"};
    if (!v.neg) f.push_back("c" + N);
    if (v.type == string("any")) f.push_back("ta(g" + N + ")");
    else f.push_back(string("t") + v.type[0] + "(l" + N + ")");
    return f;
}
static string program(const V &a, const V &b, const std::vector<string> &exprs) {
    string s;
    const V *v[2] = {&a, &b};
    const char *n[2] = {"A", "B"};
    for (int i = 0; i < 2; ++i) {
        string N = n[i], T = v[i]->type;
        if (!v[i]->neg) s += "c" + N + " :: " + v[i]->text + "\n";
        s += "struct Bx" + N + " { u: int v: " + T + " w: str }\n";
        s += "g" + N + " := " + v[i]->text + "\nbx" + N + " := new Bx" + N + "{7, g" + N + ", \"w\"}\n";
        s += "func idf" + N + "(z: " + T + "): " + T + " { return z }\n";
    }
    s += string("func run(q: int, pA: ") + a.type + ", pB: " + b.type + ", r: float) {\n m := 9 lA := pA n := 2.5 lB := pB\n";
    for (auto &e : exprs) s += " out(" + e + ")\n";
    s += " out(lA, lB, pA, pB, m, n, q, r)\n}\nrun(1, " + a.text + ", " + b.text + ", 4.5)\n";
    return s;
}
static string pairProgram(uint64_t idx) {
    mc::Digits d(idx);
    int op = (int)d(NOPS);
    const V &a = vals[d(vals.size())], &b = vals[d(vals.size())];
    std::vector<string> e;
    auto fa = forms(a, "A"), fb = forms(b, "B");
    string ta = a.type, tb = b.type;
    string o = OPS[op];
    bool num = (ta == "int" || ta == "float") && (tb == "int" || tb == "float");
    bool ok = o == "==" || o == "!=" || ((o == "&&" || o == "||") ? ta == "bool" && tb == "bool"
              : (o == "%" || o == "|" || o == "&" || o == "<<" || o == ">>") ? ta == "int" && tb == "int" : num);
    if (!ok) return program(a, b, {a.text + " " + o + " " + b.text});
    for (auto &x : fa) for (auto &y : fb) e.push_back(x + " " + o + " " + y);
    return program(a, b, e);
}
// ---- trees: three operands, two operators, with and without parentheses
static const char *OPER[] = {"ti(6)", "tf(2.5)", "tb(true)", "4", "tb(false)", "ti(3)", "ts(\"a\")"};
static int nOper = 7;
static const char *SHAPE3[] = {"A o B p C", "(A o B) p C", "A o (B p C)"};
static string tree3(uint64_t idx) {
    mc::Digits d(idx);
    string s = SHAPE3[d(3)];
    int o = (int)d(NOPS), p = (int)d(NOPS);
    int a = (int)d(nOper), b = (int)d(nOper), c = (int)d(nOper);
    string r;
    for (char ch : s) r += ch == 'A' ? OPER[a] : ch == 'B' ? OPER[b] : ch == 'C' ? OPER[c] : ch == 'o' ? OPS[o] : ch == 'p' ? OPS[p] : string(1, ch);
    return "out(" + r + ")\n";
}
// ---- four operands, three operators, all groupings, well typed by construction of operand kinds
static const char *SHAPE4[] = {"A o B p C q D", "(A o B) p (C q D)", "A o (B p C) q D", "((A o B) p C) q D", "A o (B p (C q D))", "A o B p (C q D)"};
static const char *SETS[][4] = {{"ti(12)", "ti(5)", "ti(3)", "ti(2)"}, {"tf(12.5)", "ti(5)", "tf(3.0)", "ti(2)"},
                                {"ti(1)", "ti(1)", "tb(true)", "tb(false)"}, {"tb(true)", "tb(false)", "tb(true)", "tb(false)"},
                                {"tb(false)", "ti(3)", "ti(4)", "tb(true)"}, {"x", "1", "y", "1"}};
static string tree4(uint64_t idx) {
    mc::Digits d(idx);
    string s = SHAPE4[d(6)];
    int o = (int)d(NOPS), p = (int)d(NOPS), q = (int)d(NOPS);
    auto &S = SETS[d(6)];
    string r;
    for (char ch : s) r += ch == 'A' ? S[0] : ch == 'B' ? S[1] : ch == 'C' ? S[2] : ch == 'D' ? S[3] : ch == 'o' ? OPS[o] : ch == 'p' ? OPS[p] : ch == 'q' ? OPS[q] : string(1, ch);
    return "x := 41 y := 17\nout(" + r + ")\nout(x, y)\n";
}
// ---- unary prefixes over every operand form, alone and beside a binary operator
static const char *UOPER[] = {"5", "0", "2.5", "true", "false", "gi", "gf", "gb", "s.i", "s.f", "s.b", "ti(3)", "tf(1.5)", "tb(true)", "ci", "cf", "cb",
                              "(gi + 1)", "(gb && true)", "(gi < 3)", "cast(ga, int)", "cast(gc, bool)", "if gb gi else 3", "str0", "null", "s", "t.s.i", "t.s.b"};
static const int NU = 28;
static string unary(uint64_t idx) {
    mc::Digits d(idx);
    int len = (int)d(4), bits = (int)d(8), shape = (int)d(1 + 2 * NOPS);
    string e;
    for (int i = 0; i < len; ++i) e += (bits >> i & 1) ? "!" : "-";
    e += UOPER[d(NU)];
    bool isb = e.find('b') != string::npos || e.find("true") != string::npos || e.find("false") != string::npos || e.find("< 3") != string::npos;
    if (shape) {
        string o = OPS[(shape - 1) / 2];
        string other = isb ? "tb(true)" : "ti(2)";
        e = (shape - 1) % 2 ? other + " " + o + " " + e : e + " " + o + " " + other;
    }
    return "ci :: 11 cf :: 0.5 cb :: true\nstruct S { i: int f: float b: bool } struct T { s: S }\ngi := 4 gf := 6.5 gb := false ga := cast(8, any) gc := cast(true, any) str0 := \"q\"\n"
           "s := new S{21, 1.25, true} t := new T{new S{22, 0.75, false}}\nout(" + e + ")\n";
}
// ---- conditional expression: nesting, selection, evaluation of exactly one arm
static string ternary(uint64_t idx) {
    mc::Digits d(idx);
    static const char *conds[] = {"tb(true)", "tb(false)", "true", "false", "ti(1) < ti(2)", "x == 3", "tb(true) && tb(false)", "(if tb(true) tb(false) else true)"};
    static const char *arms[] = {"ti(1)", "2", "x", "tf(1.5)", "ts(\"s\")", "null", "tb(true)", "if tb(false) ti(7) else ti(8)", "(if tb(true) ti(5) else ti(6))", "ti(1) + ti(2)", "new P{1}", "-ti(3)"};
    string c = conds[d(8)], a = arms[d(12)], b = arms[d(12)];
    int shape = (int)d(4);
    string e = "if " + c + " " + a + " else " + b;
    if (shape == 1) e = "(" + e + ") + ti(10)";
    if (shape == 2) e = "ti(10) - (" + e + ")";
    if (shape == 3) e = "e2(" + e + ", ti(4))";
    return "struct P { v: int }\nfunc e2(a: int, b: int): int { return a * 10 + b }\nx := 3\nout(" + e + ")\n";
}
// ---- every small literal, and every literal near a power of two, in every operator position
static std::vector<long long> lits;
static string literals(uint64_t idx) {
    string s = "x := 1000 f := 0.5 func g(n: int): int { return n }\n";
    for (uint64_t i = idx * 8; i < idx * 8 + 8 && i < lits.size(); ++i) {
        string n = I(lits[i]);
        s += "out(" + n + ", -" + n + ")\nx = " + n + " out(x)\nf = f + " + n + " out(f)\nf = 0.5 - " + n + " out(f)\nout(g(" + n + "), g(" + n + ") == " + n + ", " + n + " < x, x <= " + n +
             ", " + n + " != x + 0)\n";
        if (lits[i] < INT64_MAX) s += "out(x + 1, " + n + " + 1)\n";
        s += "out(x - 1, -x, " + n + " - 1, 0 - " + n + ", (x - " + n + ") + 1)\nx -= " + n + " out(x) x += " + n + " out(x)\nout(x % 7, x / 3, x | 1, x & 255, " + n + " >> 3, 1.0 * " + n + ")\n";
    }
    return s;
}
// ---- ints and floats around the places where one is no longer exact
static string rounding(uint64_t idx) {
    mc::Digits d(idx);
    int e = (int)d(62) + 1, neg = (int)d(2);
    static const char *FR[] = {".0", ".5", ".25"};
    string s = "func cmp(a: int, b: float) { out(a < b, a > b, a <= b, a >= b, b < a, b > a, b <= a, b >= a, a + b, b - a, a * b, a - b == 0.0) }\n";
    for (int k = -2; k <= 2; ++k) {
        long long v = (long long)((1ull << e) + (uint64_t)(int64_t)k);
        if (v < 0) continue;
        string a = string(neg ? "-" : "") + I(v);
        for (int j = -2; j <= 2; ++j) for (auto f : FR) {
            long long w = (long long)((1ull << e) + (uint64_t)(int64_t)j);
            if (w < 0) continue;
            string b = string(neg ? "-" : "") + I(w) + f;
            s += "out(" + a + " < " + b + ", " + b + " < " + a + ", " + a + " + " + b + ", " + b + " >= " + a + ") cmp(" + a + ", " + b + ")\n";
        }
    }
    return s;
}
// ---- operands of && and || with effects: all boolean expressions of up to 4 leaves
static string boolean(uint64_t idx) {
    mc::Digits d(idx);
    string s = SHAPE4[d(6)];
    string r;
    int ops = (int)d(8), v = (int)d(16), ng = (int)d(16);
    for (char ch : s) {
        if (ch >= 'A' && ch <= 'D') r += string((ng >> (ch - 'A') & 1) ? "!" : "") + ((v >> (ch - 'A') & 1) ? "tb(true)" : "tb(false)");
        else if (ch >= 'o' && ch <= 'q') r += (ops >> (ch - 'o') & 1) ? "&&" : "||";
        else r += ch;
    }
    static const char *ctx[] = {"out(E)", "if E out(1) else out(2)", "n := 0 while E { n += 1 if n == 2 break } out(n)", "x := E out(x)", "func f(): bool { return E } out(f())"};
    return sub(ctx[d(5)], "E", r) + "\n";
}

// ---- the operators on values given by the host, against wide arithmetic
typedef __int128 W;
static std::vector<int64_t> dints;
static std::vector<double> dflts;
static string denseDecl() {
    string s;
    for (int o = 0; o < 13; ++o) {
        bool cmp = o >= 9;
        s += "func ii" + I(o) + "(a: int, b: int): " + (cmp ? "bool" : "int") + " { return a " + OPS[o] + " b }\n";
        if (o >= 4 && o <= 8) continue;
        s += "func ff" + I(o) + "(a: float, b: float): " + (cmp ? "bool" : "float") + " { return a " + OPS[o] + " b }\n";
        s += "func if" + I(o) + "(a: int, b: float): " + (cmp ? "bool" : "float") + " { return a " + OPS[o] + " b }\n";
        s += "func fi" + I(o) + "(a: float, b: int): " + (cmp ? "bool" : "float") + " { return a " + OPS[o] + " b }\n";
    }
    for (int o = 0; o < 2; ++o) {
        const char *op = o ? "!=" : "==";
        s += string("func ii") + I(13 + o) + "(a: int, b: int): bool { return a " + op + " b }\nfunc ff" + I(13 + o) + "(a: float, b: float): bool { return a " + op + " b }\n";
        s += string("func if") + I(13 + o) + "(a: int, b: float): bool { return a " + op + " b }\nfunc fi" + I(13 + o) + "(a: float, b: int): bool { return a " + op + " b }\n";
    }
    s += "func ni(a: int): int { return -a }\nfunc nf(a: float): float { return -a }\nfunc inc(a: int): int { return a + 1 }\nfunc dec(a: int): int { return a - 1 }\n";
    return s;
}
static Direct &D() { static Direct *d = new Direct(denseDecl().c_str()); return *d; }
static void want(Tiny_Value v, int type, int64_t i, double f, const char *what, const string &a, const string &b) {
    mc::noteTransitions(1);
    bool ok = v.type == type;
    if (ok && type == TINY_VAL_INT) ok = Tiny_ToInt(v) == i;
    if (ok && type == TINY_VAL_BOOL) ok = Tiny_ToBool(v) == (i != 0);
    if (ok && type == TINY_VAL_FLOAT) { double g = Tiny_ToFloat(v); ok = !memcmp(&f, &g, 8) || (std::isnan(f) && std::isnan(g)); }
    if (!ok) mc::fail("%s %s %s is %s", a.c_str(), what, b.c_str(), shown(v).c_str());
}
static string F(double f) { char b[40]; snprintf(b, sizeof b, "%a", f); return b; }
// The order of a float and an integer, as floats, decided on their bits: -1, 0, 1, or 2 for unordered.
static int order(double a, double b) {
    if (std::isnan(a) || std::isnan(b)) return 2;
    int64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
    if (x < 0) x = INT64_MIN - x;
    if (y < 0) y = INT64_MIN - y;
    return x < y ? -1 : x > y;
}
static bool cmpHolds(int o, int ord) {      // o: 9 <, 10 >, 11 <=, 12 >=
    return ord != 2 && (o == 9 ? ord < 0 : o == 10 ? ord > 0 : o == 11 ? ord <= 0 : ord >= 0);
}
static void denseInt(int64_t a, int64_t b) {
    Direct &d = D();
    Tiny_Value x = Tiny_NewInt(a), y = Tiny_NewInt(b);
    string A = I(a), B = I(b);
    static const char *nm[] = {"ii0", "ii1", "ii2", "ii3", "ii4", "ii5", "ii6", "ii7", "ii8", "ii9", "ii10", "ii11", "ii12", "ii13", "ii14"};
    auto fits = [](W w) { return w >= INT64_MIN && w <= INT64_MAX; };
    for (int o = 0; o < 15; ++o) {
        W w;
        switch (o) {
            case 0: w = (W)a + b; break;
            case 1: w = (W)a - b; break;
            case 2: w = (W)a * b; break;
            case 3: case 4: {
                if (!b) continue;
                unsigned __int128 n = a < 0 ? -(W)a : a, m = b < 0 ? -(W)b : b;
                W q = (W)(n / m), r = (W)(n % m);
                if ((a < 0) != (b < 0)) q = -q;
                if (a < 0) r = -r;
                if (o == 4 && !fits(q)) continue;
                w = o == 3 ? q : r;
                break;
            }
            case 5: case 6: {
                uint64_t r = 0;
                for (int k = 0; k < 64; ++k) { bool p = (uint64_t)a >> k & 1, q = (uint64_t)b >> k & 1; if (o == 5 ? p || q : p && q) r |= 1ull << k; }
                w = (int64_t)r;
                break;
            }
            case 7: case 8: continue;
            default: {
                int ord = a < b ? -1 : a > b;
                want(d.script(nm[o], {x, y}), TINY_VAL_BOOL, o == 13 ? ord == 0 : o == 14 ? ord != 0 : cmpHolds(o, ord), 0, o >= 13 ? (o == 13 ? "==" : "!=") : OPS[o], A, B);
                continue;
            }
        }
        if (!fits(w)) continue;
        want(d.script(nm[o], {x, y}), TINY_VAL_INT, (int64_t)w, 0, OPS[o], A, B);
    }
}
static bool fitsShift(int64_t a, int k) { W w = (W)a * ((W)1 << k); return w >= INT64_MIN && w <= INT64_MAX; }
static void denseShift(int64_t a) {
    Direct &d = D();
    string A = I(a);
    for (int k = 0; k < 64; ++k) {
        Tiny_Value x = Tiny_NewInt(a), y = Tiny_NewInt(k);
        if (fitsShift(a, k)) want(d.script("ii7", {x, y}), TINY_VAL_INT, (int64_t)((W)a * ((W)1 << k)), 0, "<<", A, I(k));
        W r = a, p = (W)1 << k, q = r / p;
        if (r < 0 && q * p != r) --q;
        want(d.script("ii8", {x, y}), TINY_VAL_INT, (int64_t)q, 0, ">>", A, I(k));
    }
    if (a != INT64_MIN) want(d.script("ni", {Tiny_NewInt(a)}), TINY_VAL_INT, -a, 0, "negated", A, "");
    if (a != INT64_MAX) want(d.script("inc", {Tiny_NewInt(a)}), TINY_VAL_INT, a + 1, 0, "+ 1", A, "");
    if (a != INT64_MIN) want(d.script("dec", {Tiny_NewInt(a)}), TINY_VAL_INT, a - 1, 0, "- 1", A, "");
    // as the program text
    string s;
    string lit = a == INT64_MIN ? "(-9223372036854775807 - 1)" : I(a);
    for (int k = 0; k < 64; ++k) {
        s += "out(" + lit + " >> " + I(k) + (fitsShift(a, k) ? ", " + lit + " << " + I(k) : "") + ")\n";
    }
    df::compare(s);
}
static void denseMixed(uint64_t idx) {
    Direct &d = D();
    double a = dflts[idx];
    string A = F(a);
    static const char *ff[] = {"ff0", "ff1", "ff2", "ff3", "", "", "", "", "", "ff9", "ff10", "ff11", "ff12", "ff13", "ff14"};
    static const char *xi[] = {"if0", "if1", "if2", "if3", "", "", "", "", "", "if9", "if10", "if11", "if12", "if13", "if14"};
    static const char *fx[] = {"fi0", "fi1", "fi2", "fi3", "", "", "", "", "", "fi9", "fi10", "fi11", "fi12", "fi13", "fi14"};
    auto arith = [](int o, double x, double y) { return o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y; };
    for (int o = 0; o < 15; ++o) {
        if (o >= 4 && o <= 8) continue;
        const char *op = o == 13 ? "==" : o == 14 ? "!=" : OPS[o];
        for (double b : dflts) {
            Tiny_Value v = d.script(ff[o], {Tiny_NewFloat(a), Tiny_NewFloat(b)});
            if (o < 4) want(v, TINY_VAL_FLOAT, 0, arith(o, a, b), op, A, F(b));
            else {
                int ord = order(a, b);
                want(v, TINY_VAL_BOOL, o == 13 ? ord == 0 : o == 14 ? ord != 0 : cmpHolds(o, ord), 0, op, A, F(b));
            }
        }
        for (int64_t i : dints) {
            Tiny_Value v = d.script(xi[o], {Tiny_NewInt(i), Tiny_NewFloat(a)}), w = d.script(fx[o], {Tiny_NewFloat(a), Tiny_NewInt(i)});
            double y = (double)i;
            if (o < 4) { want(v, TINY_VAL_FLOAT, 0, arith(o, y, a), op, I(i), A); want(w, TINY_VAL_FLOAT, 0, arith(o, a, y), op, A, I(i)); }
            else if (o >= 13) { want(v, TINY_VAL_BOOL, o == 14, 0, op, I(i), A); want(w, TINY_VAL_BOOL, o == 14, 0, op, A, I(i)); }
            else { want(v, TINY_VAL_BOOL, cmpHolds(o, order(y, a)), 0, op, I(i), A); want(w, TINY_VAL_BOOL, cmpHolds(o, order(a, y)), 0, op, A, I(i)); }
        }
    }
    want(d.script("nf", {Tiny_NewFloat(a)}), TINY_VAL_FLOAT, 0, a * -1.0, "negated", A, "");
}

int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        alphabet();
        nOper = mc::thorough ? 7 : 5;
        auto fam = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { df::compare(g(i)); }, [g](uint64_t i) { return g(i); });
        };
        for (long long i = 0; i <= (mc::thorough ? 70000 : 600); ++i) lits.push_back(i);
        for (int b = 9; b < 63; ++b) for (int k = -2; k <= 2; ++k) lits.push_back((1ll << b) + k);
        for (int k = 2; k >= 0; --k) lits.push_back(INT64_MAX - k);
        dints = {0};
        for (int k = 0; k < 64; ++k) for (int j = -1; j <= 1; ++j) {
            uint64_t u = (1ull << k) + (uint64_t)(int64_t)j;
            dints.push_back((int64_t)u); dints.push_back((int64_t)(0 - u));
        }
        std::sort(dints.begin(), dints.end());
        dints.erase(std::unique(dints.begin(), dints.end()), dints.end());
        for (double f : {0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 1.0 + 0x1p-52, 1.5, 2.0, 2.5, 3.0, 10.0, 127.0, 128.0, 255.5, 256.0, 65536.0, 16777216.0, 16777217.0, 2147483647.0, 2147483648.0, 4294967296.5,
                         9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, 18446744073709551616.0, 1e30, 1e308, 0x1p-1022, 0x1p-1074, 1.7976931348623157e308}) {
            dflts.push_back(f); dflts.push_back(-f);
        }
        dflts.push_back(INFINITY); dflts.push_back(-INFINITY); dflts.push_back(NAN);
        uint64_t nd = dints.size(), sm = mc::thorough ? 400 : 40;
        mc::family("dense", nd + 2 * sm + 1, [nd, sm](uint64_t i) {
            if (i < nd) { for (int64_t b : dints) denseInt(dints[i], b); return; }
            int64_t a = (int64_t)(i - nd) - (int64_t)sm;
            for (int64_t b = -(int64_t)sm; b <= (int64_t)sm; ++b) denseInt(a, b);
            mc::noteState(mc::hash(&a, 8));
        }, [nd, sm](uint64_t i) { return "integer " + I(i < nd ? dints[i] : (int64_t)(i - nd) - (int64_t)sm) + " against every other"; });
        mc::family("shifts", nd, [](uint64_t i) { denseShift(dints[i]); }, [](uint64_t i) { return I(dints[i]) + " shifted by 0..63"; });
        mc::family("floats", dflts.size(), denseMixed, [](uint64_t i) { return F(dflts[i]) + " against every float and integer"; });
        fam("pairs", NOPS * vals.size() * vals.size(), pairProgram);
        fam("tree3", 3 * NOPS * NOPS * mc::power(nOper, 3), tree3);
        fam("unary", 4 * 8 * (1 + 2 * NOPS) * NU, unary);
        fam("ternary", 8 * 12 * 12 * 4, ternary);
        fam("literals", (lits.size() + 7) / 8, literals);
        fam("rounding", 62 * 2, rounding);
        fam("boolean", 6 * 8 * 16 * 16 * 5, boolean);
        fam("tree4", 6ull * NOPS * NOPS * NOPS * (mc::thorough ? 6 : 1), tree4);
    });
}
