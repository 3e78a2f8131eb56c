// P02: control flow. All statement trees up to a size, each run on every string of
// condition outcomes up to a length.
#include "diff.hpp"
#include "gen.hpp"
using namespace gen;

static unsigned bits; static int nbits, at;
static bool nextBit() { return at < nbits ? bits >> at++ & 1 : false; }
static TINY_FOREIGN_FUNCTION(fCb) { bool b = nextBit(); df::logOf(thread)->out += b ? "c1;" : "c0;"; return Tiny_NewBool(b); }
static void bind(Tiny_State *s) { df::bindImpl(s); Tiny_BindFunction(s, "cb(): bool", fCb); }
static df::Opt opt;

// Trees as strings: o out, b break, c continue, r return, V local declaration+use;
// I if, W while, F for; S sequence, E if-else. Prefix notation.
static std::vector<string> treesUpTo(int n, const string &leaves, const string &un, const string &bi) {
    std::vector<std::vector<string>> by(n + 1);
    for (int k = 1; k <= n; ++k) {
        if (k == 1) for (char c : leaves) by[1].push_back(string(1, c));
        if (k > 1) for (char u : un) for (auto &t : by[k - 1]) by[k].push_back(string(1, u) + t);
        if (k > 2) for (char b : bi) for (int i = 1; i < k - 1; ++i) for (auto &x : by[i]) for (auto &y : by[k - 1 - i]) by[k].push_back(string(1, b) + x + y);
    }
    std::vector<string> all;
    for (auto &v : by) all.insert(all.end(), v.begin(), v.end());
    return all;
}
struct Printer {
    const string &t; size_t p = 0; int n = 0; bool value; bool bare; bool guard = false;    // guard: no loop runs for ever
    string go() {
        char c = t[p++];
        switch (c) {
            case 'o': return "oi(" + I(++n) + ") ";
            case 'b': return "break ";
            case 'c': return "continue ";
            case 'r': return value ? "return " + I(100 + ++n) + " " : "return; ";
            case 'V': { string v = "v" + I(++n); return v + " := ti(" + I(n) + ") oi(" + v + ") "; }
            case 'I': return "if cb() " + body();
            case 'W': return "while cb() " + loop();
            case 'F': { int k = ++n; return "for oi(" + I(k * 10) + "); cb(); oi(" + I(k * 10 + 1) + ") " + loop(); }
            case 'S': { string a = go(); return a + go(); }
            case 'E': { string a = body(); return "if cb() " + a + "else " + body(); }
        }
        return "";
    }
    string loop() { return guard ? "{ lim += 1 if lim > 9 break " + go() + "} " : body(); }
    string body() {
        char c = t[p];
        if (bare && c != 'S' && c != 'V' && !(c == 'I' )) return go();   // a single statement needs no braces
        return "{ " + go() + "} ";
    }
};
static string text(const string &tree, int ctx, bool guard = false) {
    Printer P{tree, 0, 0, ctx == 2 || ctx == 6, ctx % 2 == 0 || ctx == 5, guard};
    string s = P.go();
    // functions whose body is a single statement without braces
    if (ctx == 5) return "oi(990) func f() " + s + "oi(991) f() oi(992) f() func g() " + s + "g() oi(999)\n";
    if (ctx == 6) return "oi(990) func f(): int " + s + "oi(991) oi(f()) oi(992) func g(a: int, b: int): int " + s + "oi(g(f(), 7)) oi(999)\n";
    switch (ctx) {
        case 0: return s + "oi(999)\n";
        case 1: return "func f() { " + s + "oi(998) }\nf() oi(999)\n";
        case 2: return "func f(a: int): int { x := a " + s + "oi(x) return x }\noi(f(5)) oi(f(6)) oi(999)\n";
        case 3: return "func f() { for i := 0; i < 2; i += 1 { oi(i) " + s + "oi(998) } oi(997) }\nf() oi(999)\n";
        default: return "n := 0 while n < 2 { n += 1 { " + s + "} oi(998) } oi(999)\n";
    }
}
// The conditions of a tree are any of these; whatever can be known beforehand changes nothing.
static const char *COND[] = {"cb()", "true", "false", "KT", "KF", "1 < 0", "!false", "true || cb()", "false && cb()", "(true)"};
static int nCond = 10;
struct Lit { string tree; int conds; uint64_t first; };
static std::vector<Lit> lits;
static uint64_t nLits;
static string litProgram(uint64_t i) {
    mc::Digits d(i);
    int ctx = (int)d(5);
    size_t lo = 0, hi = lits.size();
    while (hi - lo > 1) { size_t m = (lo + hi) / 2; (lits[m].first <= d.v ? lo : hi) = m; }
    uint64_t c = d.v - lits[lo].first;
    string t = text(lits[lo].tree, ctx, true), o;
    for (size_t p = 0; p < t.size();) {
        if (t.compare(p, 4, "cb()")) { o += t[p++]; continue; }
        o += COND[c % nCond]; c /= nCond;
        p += 4;
    }
    return "KT :: true KF :: false lim := 0\n" + o;
}
static std::vector<string> trees;
static int NB;
static string treeProgram(uint64_t i) { mc::Digits d(i); int c = (int)d(5); return text(trees[d(trees.size())], c); }
static string bodyProgram(uint64_t i) { return text(trees[i / 2], 5 + (int)(i % 2)); }
static void treeCaseOf(const string &program) {
    df::Duo D(opt);
    if (!D.compile(program)) return;
    nbits = NB;
    D.reset = [] { at = 0; };
    // depth-first over the outcome strings actually consumed (unread outcomes are false)
    for (bits = 0;;) {
        D.run();
        int used = std::min(at, NB);
        while (used && (bits >> (used - 1) & 1)) --used;
        if (!used) break;
        bits = (bits & ((1u << (used - 1)) - 1)) | 1u << (used - 1);
    }
}
static void treeCase(uint64_t i) { treeCaseOf(treeProgram(i)); }
// Hand-shaped families: switch-like chains, deep nesting, loop bounds.
static string chain(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(40) + 1, x = (int)d(42), form = (int)d(3);
    string s = "x := " + I(x) + "\n";
    if (form == 0) for (int k = 1; k <= n; ++k) s += "if x == " + I(k) + " { oi(" + I(k) + ") } else ";
    if (form == 0) return s + "oi(0)\noi(x)\n";
    if (form == 1) { s += "func f(x: int): int {\n"; for (int k = 1; k <= n; ++k) s += "if x == " + I(k) + " return " + I(k * 7) + "\n"; return s + "return -1 }\noi(f(x))\n"; }
    for (int k = 1; k <= n; ++k) s += "if x < " + I(k) + " { oi(" + I(k) + ") x += 1 } if x >= " + I(k) + " oi(-" + I(k) + ")\n";
    return s + "oi(x)\n";
}
static string nest(uint64_t i) {
    mc::Digits d(i);
    int depth = (int)d(30) + 1, kind = (int)d(4), fun = (int)d(2), brk = (int)d(3);
    string s, e;
    for (int k = 0; k < depth; ++k) {
        string v = "i" + I(k);
        string K = I(k);
        if (kind == 0) { s += "if tb(true) { oi(" + K + ") "; e = "oi(-" + K + ") } else oi(77) " + e; }
        if (kind == 1) { s += v + " := 0 while " + v + " < 1 { " + v + " += 1 oi(" + K + ") "; e = "oi(-" + K + ") } " + e; }
        if (kind == 2) { s += "for " + v + " := 0; " + v + " < 1; " + v + " += 1 { oi(" + K + ") "; e = "oi(-" + K + ") } " + e; }
        if (kind == 3) { s += "{ " + v + " := " + K + " oi(" + v + ") "; e = "oi(" + v + " + 100) } " + e; }
    }
    string mid = "oi(5000) ";
    if (brk == 1 && (kind == 1 || kind == 2)) mid = "break ";
    if (brk == 2 && (kind == 1 || kind == 2)) mid = "if tb(true) continue ";
    s = s + mid + e;
    if (fun) return "func f() { " + s + "}\nf() oi(9)\n";
    return s + "oi(9)\n";
}
static string bounds(uint64_t i) {
    mc::Digits d(i);
    int from = (int)d(5) - 2, to = (int)d(8) - 2, step = (int)d(3) + 1, cmp = (int)d(4), skip = (int)d(5) - 1, stop = (int)d(5), fun = (int)d(2);
    static const char *C[] = {"<", "<=", "!=", ">"};
    string s = "for i := " + I(from) + "; i " + C[cmp] + " " + I(to) + " && n < 12; i += " + I(step) + " { n += 1 if i == " + I(skip) + " continue if n == " + I(stop + 3) + " break oi(i) }\noi(n) ";
    if (fun) return "func f() { n := 0 " + s + "}\nf() f()\n";
    return "n := 0 " + s + "\n";
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt.binder = bind;
        opt.refBinder = [](df::RefEnv &R) {
            R.S.bind("cb(): bool", [&R](std::vector<ref::Val> &) { bool b = nextBit(); R.log += b ? "c1;" : "c0;"; return ref::Val::mkBool(b); });
        };
        NB = mc::thorough ? 7 : 5;
        trees = treesUpTo(mc::thorough ? 6 : 5, "obcr", "IWF", "SE");
        auto big = treesUpTo(mc::thorough ? 8 : 6, "oVb", "IF", "S");   // fewer kinds, larger
        trees.insert(trees.end(), big.begin(), big.end());
        {
            nCond = mc::thorough ? 10 : 6;
            nLits = 0;
            for (auto &t : treesUpTo(mc::thorough ? 5 : 4, "obcr", "IWF", "SE")) {
                int k = (int)std::count_if(t.begin(), t.end(), [](char c) { return strchr("IWFE", c); });
                if (!k || (k > 3 && mc::thorough) ) continue;
                lits.push_back({t, k, nLits});
                nLits += mc::power(nCond, k);
            }
            df::Opt o = opt;
            mc::family("conditions", nLits * 5, [o](uint64_t i) { nbits = 3; bits = 5; df::Opt q = o; df::Duo D(q); D.reset = [] { at = 0; }; if (D.compile(litProgram(i))) D.run(); }, litProgram);
        }
        mc::family("trees", trees.size() * 5, treeCase, treeProgram);
        mc::family("bodies", trees.size() * 2, [](uint64_t i) { if (trees[i / 2][0] != 'S' && trees[i / 2][0] != 'V') treeCaseOf(bodyProgram(i)); }, bodyProgram);
        auto fam = [](const char *n, uint64_t c, string (*g)(uint64_t)) {
            mc::family(n, c, [g](uint64_t i) { df::compare(g(i)); }, [g](uint64_t i) { return g(i); });
        };
        fam("chain", 40 * 42 * 3, chain);
        fam("nest", 30 * 4 * 2 * 3, nest);
        fam("bounds", 5 * 8 * 3 * 4 * 5 * 5 * 2, bounds);
    });
}
