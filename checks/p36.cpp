// P36: names are only compared: renaming what a program defines changes nothing else.
#include "stdref.hpp"
#include "gen.hpp"
#include "rename.hpp"
using namespace gen;
static df::Opt opt, optGc;
static const std::vector<string> &U = corpus::units();
using rn::MORE;
static int NU;
static const string &unit(int i) { return i < (int)U.size() ? U[i] : MORE[i - U.size()]; }
// Reserved words, names of types and names of library functions a new name may resemble.
static const char *WORD[] = {"null", "true", "false", "if", "func", "foreign", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use", "foreach", "int", "float", "str", "bool", "void", "any", "nat", "as", "out", "strlen", "array", "dict", "json", "delegate", "array_any", "main", "type", "get", "set"};
static const int NW = sizeof WORD / sizeof *WORD;
static const int NS = 22;
static const char *SCHEME[NS] = {"each a prefix of the next", "each a prefix of the one before", "a long common beginning", "a long common end", "differing in case only", "reserved words and more", "more and reserved words", "digits", "underscores", "one letter",
                                 "120 characters", "differing at the first of 60", "differing at the 31st of 33", "reserved words in capitals", "reversed alphabet", "same characters in another order", "named like derived functions", "same length, differing in the last", "names of the other kind with a suffix",
                                 "lengths 15 to 17", "lengths 63 to 65", "same sum of characters"};
static string fresh(int s, int n, int total) {
    auto bin = [](int n, int w, char a, char b) { string o; for (int i = 0; i < w; ++i) o += n >> i & 1 ? b : a; return o; };
    string num = I(n);
    switch (s) {
        case 0: return "n" + string(n + 1, 'm');
        case 1: return "n" + string(total - n + 1, 'm');
        case 2: return string(40, 'q') + num;
        case 3: return string(1, (char)('a' + n % 26)) + string(1, (char)('a' + n / 26)) + string(40, 'e');
        case 4: { string o = "namelike"; for (int i = 0; i < 8; ++i) if (n >> i & 1) o[i] = (char)toupper(o[i]); return o; }
        case 5: return string(WORD[n % NW]) + (n / NW ? I(n / NW) : "") + "x";
        case 6: return "x" + (n / NW ? I(n / NW) : string()) + WORD[n % NW];
        case 7: return "d" + num + "0" + num;
        case 8: return "u" + string(1 + n / 2, '_') + (n % 2 ? "v" : "");
        case 9: return n < 26 ? string(1, (char)('a' + n)) : n < 52 ? string(1, (char)('A' + n - 26)) : "z" + num;
        case 10: return string(116, 'l') + string(4 - std::to_string(1000 + n).size(), '0') + I(1000 + n);
        case 11: return string(1, (char)('a' + n % 26)) + string(1, (char)('a' + n / 26)) + string(58, 'w');
        case 12: return string(30, 'k') + string(1, (char)('a' + n % 26)) + string(1, (char)('a' + n / 26)) + "z";
        case 13: { string o = WORD[n % NW]; for (auto &c : o) c = (char)toupper(c); return o + (n / NW ? I(n / NW) : ""); }
        case 14: return string(1, (char)('z' - n % 26)) + "y" + I(n / 26);
        case 15: return "o" + bin(n, 7, 'a', 'b') + bin(~n, 7, 'a', 'b');
        case 16: { static const char *D[] = {"_gets", "_lens", "_pushed", "_get_indexes", "_to_jsons", "_set_inde", "_targets"}; return "r" + string(1, (char)('a' + n % 5)) + (n < 5 ? "" : string(D[n / 5 % 7]) + (n / 35 ? I(n / 35) : "")); }
        case 17: return "samelength" + string(1, (char)('a' + n / 26)) + (char)('a' + n % 26);
        case 18: return string(n % 2 ? "T" : "t") + "his" + I(n / 2);
        case 19: return "s" + string(12 + n % 3, 's') + string(1, (char)('a' + n / 3 % 26)) + (n / 78 ? "2" : "1");
        case 20: return "s" + string(60 + n % 3, 's') + string(1, (char)('a' + n / 3 % 26)) + (n / 78 ? "2" : "1");
        default: return string(1, (char)('a' + n % 26)) + (char)('z' - n % 26) + I(n / 26);
    }
}
static string renamed(const std::vector<string> &t, const rn::Names &n, int scheme, std::map<string, string> &to) {
    for (size_t i = 0; i < n.all.size(); ++i) to[n.all[i]] = fresh(scheme, (int)i, (int)n.all.size());
    return rn::apply(t, n, to);
}
// What the host finds under a name.
static string found(Tiny_State *s, const string &n) {
    int g = Tiny_GetGlobalIndex(s, n.c_str()), f = Tiny_GetFunctionIndex(s, n.c_str());
    const Tiny_Symbol *ty = Tiny_FindTypeSymbol(s, n.c_str()), *fn = Tiny_FindFuncSymbol(s, n.c_str());
    return "global " + I(g) + " function " + I(f) + (ty ? " type" : "") + (fn ? " callable" : "");
}
static void check(const std::vector<string> &parts, int scheme, const df::Opt &o, bool split) {
    std::vector<string> t;
    std::vector<size_t> cut;
    for (auto &p : parts) {
        std::vector<string> q = corpus::tokens(p);
        if (parts.size() > 1) {          // parts don't share names
            rn::Names m = rn::collect(q);
            std::map<string, string> own;
            for (auto &x : m.all) own[x] = x + "Q" + I((long)cut.size());
            q = corpus::tokens(rn::apply(q, m, own));
        }
        for (auto &x : q) t.push_back(x);
        cut.push_back(t.size());
    }
    rn::Names n = rn::collect(t);
    std::map<string, string> to;
    for (size_t i = 0; i < n.all.size(); ++i) to[n.all[i]] = fresh(scheme, (int)i, (int)n.all.size());
    {   // the new names are different ones, and nothing else is called so
        std::set<string> seen(t.begin(), t.end());
        for (auto &[a, b] : to) { seen.insert(a); for (auto w : WORD) if (b == w) mc::fail("machinery: %s", w); }
        std::set<string> v;
        for (auto &[a, b] : to) if (!v.insert(b).second) mc::fail("machinery: %s twice", b.c_str());
        for (auto &[a, b] : to) if (seen.count(b) && !to.count(b)) { mc::noteSkip(); return; }
    }
    df::Duo B(o), R(o);
    bool okB = true, okR = true;
    size_t from = 0;
    string acc;
    for (size_t k = 0; k < cut.size(); ++k) {
        if (!split && k + 1 < cut.size()) continue;
        std::vector<string> piece(t.begin() + from, t.begin() + cut[k]);
        from = cut[k];
        std::map<string, string> id;
        okB = B.compile(rn::apply(piece, n, id));
        okR = R.compile(rn::apply(piece, n, to));
        if (okB != okR) mc::fail("%s, but after renaming it is %s\n--- program\n%s", okB ? "accepted" : "rejected", okR ? "accepted" : "rejected", R.src.c_str());
        if (!okB) return;
    }
    for (auto &[a, b] : to) {
        string x = found(B.I.s, a), y = found(R.I.s, b);
        if (x != y) mc::fail("the host finds '%s' as [%s], and as [%s] after renaming it to '%s'\n--- program\n%s", a.c_str(), x.c_str(), y.c_str(), b.c_str(), R.src.c_str());
        string z = found(R.I.s, a), none = "global -1 function -1";
        if (z != none && std::none_of(to.begin(), to.end(), [&](auto &p) { return p.second == a; })) mc::fail("the old name '%s' is still found as [%s]\n--- program\n%s", a.c_str(), z.c_str(), R.src.c_str());
    }
    if (B.run() != R.run()) return;
    mc::noteTrace();
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        opt.mustAccept = true;
        opt.checkGlobals = false;
        optGc = opt;
        optGc.gc = 0;
        NU = (int)(U.size() + MORE.size());
        auto show = [](std::vector<string> p, int s) { string o; for (auto &x : p) o += x + "\n"; return o + "names: " + SCHEME[s]; };
        mc::family("units", NU * NS * 2, [](uint64_t i) { mc::Digits d(i); int u = (int)d(NU), s = (int)d(NS); check({unit(u)}, s, d(2) ? optGc : opt, false); },
                   [show](uint64_t i) { mc::Digits d(i); int u = (int)d(NU), s = (int)d(NS); return show({unit(u)}, s); });
        mc::family("pairs", (uint64_t)NU * NU * NS, [](uint64_t i) {
            mc::Digits d(i);
            int u = (int)d(NU), v = (int)d(NU), s = (int)d(NS);
            if (u == v) return;
            check({unit(u), unit(v)}, s, opt, (u + v + s) % 2);
        }, [show](uint64_t i) { mc::Digits d(i); int u = (int)d(NU), v = (int)d(NU), s = (int)d(NS); return show({unit(u), unit(v)}, s); });
        if (mc::thorough)
            mc::family("triples", (uint64_t)NU * NU * NU * NS, [](uint64_t i) {
                mc::Digits d(i);
                int u = (int)d(NU), v = (int)d(NU), w = (int)d(NU), s = (int)d(NS);
                if (u >= v || v >= w) return;
                check({unit(w), unit(u), unit(v)}, s, opt, (u + v + w) % 2);
            }, [show](uint64_t i) { mc::Digits d(i); int u = (int)d(NU), v = (int)d(NU), w = (int)d(NU), s = (int)d(NS); return show({unit(w), unit(u), unit(v)}, s); });
        // one name at a time, of every length and like every word
        mc::family("one-name", (uint64_t)NU * 12 * (130 + NW * 4), [](uint64_t i) {
            mc::Digits d(i);
            int u = (int)d(NU), k = (int)d(12), f = (int)d(130 + NW * 4);
            std::vector<string> t = corpus::tokens(unit(u));
            rn::Names n = rn::collect(t);
            if (k >= (int)n.all.size()) return;
            string w;
            if (f < 130) w = "y" + string(f, f % 3 ? 'y' : 'Z');
            else { f -= 130; string x = WORD[f / 4]; w = f % 4 == 0 ? x + "1" : f % 4 == 1 ? x + "_" : f % 4 == 2 ? "q" + x : x.size() > 1 ? x.substr(0, x.size() - 1) : "w"; }
            for (auto x : WORD) if (w == x) return;
            for (auto &x : t) if (x == w) return;
            std::map<string, string> to{{n.all[k], w}};
            df::compare(rn::apply(t, n, to), opt);
        });
    });
}
