// P18: string functions agree with byte-string semantics.
#include "direct.hpp"
#include "gen.hpp"
using namespace gen;
using df::Val;
static Direct &D() { static Direct *d = new Direct("func id(a: any): any { return a } func cat(a: str, b: str): str { return strcat(a, b) } func same(a: str, b: str): bool { return a == b } func len(a: str): int { return a->strlen() } func at(s: str, i: int): int { return s[i] }"); return *d; }
static string bytes(Tiny_Value v, const string &what) {
    if (v.type != TINY_VAL_STRING && v.type != TINY_VAL_CONST_STRING) mc::fail("%s is not a string but %s", what.c_str(), shown(v).c_str());
    string s(Tiny_ToString(v), Tiny_StringLen(v));
    if (Tiny_ToString(v)[s.size()]) mc::fail("%s is not terminated", what.c_str());
    return s;
}
static string hex(const string &s) { string o; char b[8]; for (unsigned char c : s) { snprintf(b, 8, c >= 32 && c < 127 ? "%c" : "\\%02x", c); o += b; if (o.size() > 200) { o += "..."; break; } } return "\"" + o + "\" (" + I((long)s.size()) + " bytes)"; }
// A value with these bytes, made in the given way.
static const int NWAY = 5;
static Tiny_Value make(Direct &d, const string &s, int way) {
    switch (way) {
        case 0: return d.str(s);
        case 1: { char *p = (char *)Tiny_AllocUsingContext(d.t.ctx, nullptr, s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return Tiny_NewString(&d.t, p, s.size()); }
        case 2: {
            if (s.find('\0') != string::npos) return d.str(s);
            static std::map<string, char *> memo;                    // an exact block, so that reads past it are seen
            auto &p = memo[s];
            if (!p) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); }
            if (memo.size() > 3000) memo.clear();
            return Tiny_NewConstString(p);
        }
        case 3: return d("substr", {d.str("<" + s + ">"), Tiny_NewInt(1), Tiny_NewInt((Tiny_Int)s.size() + 1)});
        default: { size_t h = s.size() / 2; return d("strcat", {d.str(s.substr(0, h)), d.str(s.substr(h))}); }
    }
}
static long num(Tiny_Value v, const char *what) { if (v.type != TINY_VAL_INT) mc::fail("%s is not an integer but %s", what, shown(v).c_str()); return (long)Tiny_ToInt(v); }
static void one(const string &s, int way, bool allSub = true) {
    Direct &d = D();
    d.trim(4000);
    Tiny_Value v = make(d, s, way);
    string what = hex(s) + " made in way " + I(way);
    if (bytes(v, what) != s) mc::fail("%s has the bytes %s", what.c_str(), hex(bytes(v, what)).c_str());
    if (num(d("strlen", {v}), "strlen") != (long)s.size()) mc::fail("the length of %s is %ld", what.c_str(), num(d("strlen", {v}), "strlen"));
    for (size_t i = 0; i < s.size(); ++i) {
        for (auto f : {"stridx", "sget", "str_get_index"}) {
            long c = num(d(f, {v, Tiny_NewInt((Tiny_Int)i)}), f);
            if ((c & 255) != (unsigned char)s[i] || c > 255 || c < -128) mc::fail("%s at %zu of %s is %ld", f, i, what.c_str(), c);
        }
        if (!allSub && i > 3 && i + 3 < s.size()) i += s.size() / 7;
    }
    for (int c = 0; c < 256; c += allSub || s.size() < 40 ? 1 : 17) {
        size_t p = s.find((char)c);
        long want = p == string::npos ? -1 : (long)p;
        if (num(d("strchr", {v, Tiny_NewInt(c)}), "strchr") != want) mc::fail("strchr of character %d in %s is %ld, expected %ld", c, what.c_str(), num(d("strchr", {v, Tiny_NewInt(c)}), "strchr"), want);
    }
    size_t n = s.size(), step = allSub ? 1 : n / 5 + 1;
    for (size_t a = 0; a <= n; a += step) {
        for (size_t b = a; b <= n; b += b + step > n && b < n ? n - b : step) {
            string r = bytes(d("substr", {v, Tiny_NewInt((Tiny_Int)a), Tiny_NewInt((Tiny_Int)b)}), "a substring");
            if (r != s.substr(a, b - a)) mc::fail("substr %zu to %zu of %s is %s", a, b, what.c_str(), hex(r).c_str());
            if (b == n) break;
        }
        string r = bytes(d("substr", {v, Tiny_NewInt((Tiny_Int)a), Tiny_NewInt(-1)}), "a substring");
        if (r != s.substr(a)) mc::fail("substr %zu to the end of %s is %s", a, what.c_str(), hex(r).c_str());
        if (d.t.numObjects > 50000) { d.trim(); v = make(d, s, way); }
    }
    mc::noteState(mc::hash(s) + (uint64_t)way);
    mc::noteTransitions(allSub ? n * n + 256 : 300);
    mc::noteTrace();
}
static string strAt(uint64_t i, const char *alpha, int k) { string s; for (int c : mc::seqAt(k, i)) s += alpha[c]; return s; }
static void cat(const std::vector<string> &p, int way) {
    Direct &d = D();
    d.trim(4000);
    std::vector<Tiny_Value> a;
    string w, what = "concatenating";
    for (auto &x : p) { a.push_back(make(d, x, way < 0 ? (int)((a.size() + -way) % NWAY) : way)); w += x; what += " " + hex(x); }
    string r = bytes(d.call("strcat", a.data(), (int)a.size()), "a concatenation");
    if (r != w) mc::fail("%s gives %s", what.c_str(), hex(r).c_str());
    for (size_t i = 0; i < p.size(); ++i) if (bytes(a[i], "argument") != p[i]) mc::fail("%s changes its argument %zu", what.c_str(), i);
    mc::noteTrace();
}
static void equal(const string &x, const string &y) {
    Direct &d = D();
    d.trim(4000);
    for (int a = 0; a < NWAY; ++a)
        for (int b = 0; b < NWAY; ++b) {
            Tiny_Value u = make(d, x, a), v = make(d, y, b);
            bool e = Tiny_AreValuesEqual(u, v);
            if (e != (x == y)) mc::fail("%s (way %d) and %s (way %d) are %s", hex(x).c_str(), a, hex(y).c_str(), b, e ? "equal" : "different");
            Tiny_Value r = d.script("same", {u, v});
            if (r.type != TINY_VAL_BOOL || Tiny_ToBool(r) != (x == y)) mc::fail("%s (way %d) == %s (way %d) is %s in a program", hex(x).c_str(), a, hex(y).c_str(), b, shown(r).c_str());
        }
    mc::noteTrace();
}
// An integer as text in a base, independent of the C library.
static bool parseInt(const string &s, int base, Tiny_Int &out) {
    size_t i = 0;
    while (i < s.size() && strchr(" \t\n\v\f\r", s[i]) && s[i]) ++i;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    auto dig = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
    if (base == 16 && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && dig(s[i + 2]) < 16) i += 2;
    __int128 v = 0;
    for (; i < s.size() && dig(s[i]) < base; ++i) { v = v * base + dig(s[i]); if (v > (__int128)INT64_MAX + 1) return false; }
    if (neg) v = -v;
    if (v > INT64_MAX) return false;
    out = (Tiny_Int)v;
    return true;
}
static string inBase(Tiny_Int x, int base) {
    bool neg = x < 0;
    unsigned long long u = neg ? 0ull - (unsigned long long)x : (unsigned long long)x;
    string s;
    do { s += "0123456789abcdefghijklmnopqrstuvwxyz"[u % base]; u /= base; } while (u);
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
static void text2int(const string &s) {
    Direct &d = D();
    d.trim(4000);
    Tiny_Int w;
    for (int base : {10, 2, 8, 16, 36})
        if (parseInt(s, base, w)) {
            Tiny_Value v = d.str(s);
            Tiny_Value r = d("stoi", {v, Tiny_NewInt(base)});
            if (r.type != TINY_VAL_INT || Tiny_ToInt(r) != w) mc::fail("stoi of %s in base %d is %s, expected %lld", hex(s).c_str(), base, shown(r).c_str(), (long long)w);
            if (base == 10) { r = d("str_to_int", {v}); if (r.type != TINY_VAL_INT || Tiny_ToInt(r) != w) mc::fail("str_to_int of %s is %s, expected %lld", hex(s).c_str(), shown(r).c_str(), (long long)w); }
        }
    Tiny_Value f = d("ston", {d.str(s)});
    double x = strtod(s.c_str(), nullptr);
    if (f.type != TINY_VAL_FLOAT || (Tiny_ToFloat(f) != x && x == x)) mc::fail("ston of %s is %s, expected %a", hex(s).c_str(), shown(f).c_str(), x);
    mc::noteTrace();
}
static void int2text(Tiny_Int x) {
    Direct &d = D();
    d.trim(4000);
    string r = bytes(d("int_to_str", {Tiny_NewInt(x)}), "int_to_str");
    if (r != inBase(x, 10)) mc::fail("int_to_str of %lld is %s", (long long)x, hex(r).c_str());
    for (int base = 2; base <= 36; ++base) {
        Tiny_Value v = d("stoi", {d.str(inBase(x, base)), Tiny_NewInt(base)});
        if (v.type != TINY_VAL_INT || Tiny_ToInt(v) != x) mc::fail("%s in base %d is read as %s", inBase(x, base).c_str(), base, shown(v).c_str());
    }
    Tiny_Value b = d("str_to_int", {d("int_to_str", {Tiny_NewInt(x)})});
    if (b.type != TINY_VAL_INT || Tiny_ToInt(b) != x) mc::fail("str_to_int(int_to_str(%lld)) is %s", (long long)x, shown(b).c_str());
    char buf[64];
    snprintf(buf, 64, "%g", (double)x);
    if (bytes(d("ntos", {Tiny_NewInt(x)}), "ntos") != buf) mc::fail("ntos of %lld is %s", (long long)x, hex(bytes(d("ntos", {Tiny_NewInt(x)}), "ntos")).c_str());
    double h = (double)x / 8 + 0.25;
    snprintf(buf, 64, "%g", h);
    if (bytes(d("ntos", {Tiny_NewFloat(h)}), "ntos") != buf) mc::fail("ntos of %a is not %s", h, buf);
    for (auto f : {"floor", "ceil"}) { Tiny_Value v = d(f, {Tiny_NewFloat(h)}); double w = *f == 'f' ? floor(h) : ceil(h); if (v.type != TINY_VAL_FLOAT || Tiny_ToFloat(v) != w) mc::fail("%s of %a is %s", f, h, shown(v).c_str()); }
    mc::noteTrace();
}
// ---------------------------------------------------------------- programs
static const string VARS = "s := \"\" t := \"ab\" u := hs(\"xyz\") n := 0 r := new R{\"f\"}\n";
static const string DECL = "struct R { f: str }\nK :: \"konst\"\nfunc twice(x: str): str { return strcat(x, x) }\nfunc tail(x: str): str { if strlen(x) == 0 { return x } return substr(x, 1, -1) }\n";
static const std::vector<string> OPS = {
    "s = strcat(s, \"a\")", "s = strcat(t, s, u)", "t = twice(t)", "u = tail(u)", "if strlen(s) > 2 { s = substr(s, 1, strlen(s) - 1) }", "t = substr(t, 0, strlen(t) / 2)", "u = K", "s = \"\"", "t = s", "r.f = strcat(u, r.f)", "u = r.f",
    "n = strlen(s) + strlen(t)->int_to_str()->strlen()", "out(strchr(s, 'a'), strchr(t, 'z'), strchr(u, 'y'))", "for i := 0; i < strlen(u); i += 1 { out(u[i], stridx(u, i)) }", "out(s == t, t == u, s == \"\", u != \"konst\", r.f == K)", "s = int_to_str(strlen(s) * 37 - 5)", "out(str_to_int(s), stoi(t, 16), ston(u))",
    "if s == u { s = strcat(s, \"!\") } else { u = s }", "t = hs(t, 1, \"q\")", "s = if strlen(s) > strlen(t) s else t", "t = strcat(substr(s, 0, strlen(s) / 2), \"|\", substr(s, strlen(s) / 2, -1))", "x := tail(s) s = strcat(x, tail(x))",
};
static df::Machine M[4];
static void machine(int which, const std::vector<int> &q) {
    df::Machine &m = M[which];
    if (!m.text) {
        m.opt = df::stdOpt();
        m.opt.gc = which >= 2 ? 0 : -1;
        bool local = which & 1;
        m.text = [local] { return df::machine(DECL, VARS, OPS, "out(s, t, u)", "out(s, t, u, n, r)", local); };
    }
    m.run(q);
}
static string expr(uint64_t &v, int depth) {
    static const char *L[] = {"\"\"", "\"ab\"", "hs(\"c\")", "K", "s", "\"abcab\""};
    if (!depth) { string r = L[v % 6]; v /= 6; return r; }
    int k = (int)(v % 8);
    v /= 8;
    switch (k) {
        case 0: { string a = expr(v, depth - 1), b = expr(v, 0); return "strcat(" + a + ", " + b + ")"; }
        case 1: { string a = expr(v, 0), b = expr(v, depth - 1), c = expr(v, 0); return "strcat(" + a + ", " + b + ", " + c + ")"; }
        case 2: { string a = expr(v, depth - 1); return "substr(" + a + ", 0, -1)"; }
        case 3: { string a = expr(v, depth - 1); return "tail(" + a + ")"; }
        case 4: { string a = expr(v, depth - 1); return "int_to_str(strlen(" + a + "))"; }
        case 5: { string a = expr(v, depth - 1), b = expr(v, 0); return "(if " + a + " == " + b + " \"yes\" else " + b + ")"; }
        case 6: { string a = expr(v, depth - 1); return "new R{" + a + "}.f"; }
        default: { string a = expr(v, depth - 1); return "twice(" + a + ")"; }
    }
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        static const char AL[] = {'a', 'b', '\0', '\xff', ' '};
        mc::family("all-strings", mc::seqCount(4, mc::thorough ? 6 : 4) * NWAY, [](uint64_t i) { one(strAt(i / NWAY, AL, 4), (int)(i % NWAY)); }, [](uint64_t i) { return hex(strAt(i / NWAY, AL, 4)); });
        mc::family("all-bytes", 256 * 3 * NWAY, [](uint64_t i) { int c = (int)(i / NWAY % 256); string s = i / NWAY / 256 == 0 ? string(1, (char)c) : i / NWAY / 256 == 1 ? string("x") + (char)c + "y" : string(9, (char)c); one(s, (int)(i % NWAY)); });
        mc::family("concat-2", mc::seqCount(3, 3) * mc::seqCount(3, 3) * NWAY, [](uint64_t i) { uint64_t n = mc::seqCount(3, 3); cat({strAt(i / NWAY % n, AL, 3), strAt(i / NWAY / n, AL, 3)}, (int)(i % NWAY)); });
        mc::family("concat-3", mc::power(mc::seqCount(3, 2), 3) * 2, [](uint64_t i) { uint64_t n = mc::seqCount(3, 2); int w = (int)(i % 2); i /= 2; cat({strAt(i % n, AL + 1, 3), strAt(i / n % n, AL + 1, 3), strAt(i / n / n, AL + 1, 3)}, -1 - w); });
        mc::family("concat-many", 60 * 12, [](uint64_t i) {
            int n = 2 + (int)(i / 12), len = (int)(i % 12);
            std::vector<string> p;
            for (int k = 0; k < n; ++k) p.push_back(string(len < 10 ? (k * len + len) % 11 : len == 10 ? k : 300, (char)('a' + k % 26)));
            cat(p, -(int)(i % 5) - 1);
        });
        mc::family("equality", mc::seqCount(4, 3) * mc::seqCount(4, 3), [](uint64_t i) { uint64_t n = mc::seqCount(4, 3); equal(strAt(i % n, AL, 4), strAt(i / n, AL, 4)); });
        mc::family("equality-long", 260 * 4, [](uint64_t i) { string a((size_t)(i / 4), 'q'), b = a; if (i % 4 == 1 && !b.empty()) b.back() = 'r'; if (i % 4 == 2 && !b.empty()) b[0] = 'r'; if (i % 4 == 3) b += 'q'; equal(a, b); });
        mc::family("lengths", (mc::thorough ? 5000 : 1100) * NWAY, [](uint64_t i) {
            size_t n = (size_t)(i / NWAY);
            string s;
            for (size_t k = 0; k < n; ++k) s += (char)('a' + k * 7 % 26);
            one(s, (int)(i % NWAY), false);
            cat({s, "x", s}, (int)(i % NWAY));
        });
        mc::family("powers", 24 * 3 * NWAY, [](uint64_t i) { size_t n = ((size_t)1 << (i / NWAY / 3)) + i / NWAY % 3 - 1; string s(n, 'p'); if (n) { s[0] = 'f'; s[n - 1] = 'l'; } one(s, (int)(i % NWAY), false); cat({s, s}, 0); });
        static const char NA[] = " 019-+.exaAzf";
        mc::family("text-to-number", mc::seqCount(13, mc::thorough ? 5 : 4), [](uint64_t i) { text2int(strAt(i, NA, 13)); }, [](uint64_t i) { return hex(strAt(i, NA, 13)); });
        mc::family("numbers", 2048 + 64 * 5, [](uint64_t i) {
            if (i < 2048) { int2text((Tiny_Int)i - 1024); return; }
            i -= 2048;
            Tiny_Int b = (Tiny_Int)(1ull << (i / 5));
            unsigned long long x = (unsigned long long)b + (i % 5) - 2;
            int2text((Tiny_Int)x);
            int2text((Tiny_Int)(0ull - x));
        });
        mc::family("host-made", mc::seqCount(3, 5), [](uint64_t i) {
            Direct &d = D();
            d.trim(4000);
            static const char B[] = {'a', '\xff', '%'};
            string s = strAt(i, B, 3);
            char *p = (char *)Tiny_AllocUsingContext(d.t.ctx, nullptr, s.size() + 1);
            memcpy(p, s.c_str(), s.size() + 1);
            for (auto v : {Tiny_NewStringNullTerminated(&d.t, p), Tiny_NewStringCopyNullTerminated(&d.t, s.c_str()), Tiny_NewStringCopy(&d.t, s.data(), s.size()), Tiny_NewConstString(s.c_str())}) {
                Tiny_Value w = d.script("id", {v});
                if (bytes(w, "a string through a program") != s) mc::fail("%s becomes %s through a program", hex(s).c_str(), hex(bytes(w, "")).c_str());
                if (bytes(d.script("cat", {v, w}), "cat") != s + s) mc::fail("%s: concatenation in a program", hex(s).c_str());
                if (num(d.script("len", {v}), "len") != (long)s.size()) mc::fail("%s: length in a program", hex(s).c_str());
                for (size_t k = 0; k < s.size(); ++k) if ((num(d.script("at", {v, Tiny_NewInt((Tiny_Int)k)}), "at") & 255) != (unsigned char)s[k]) mc::fail("%s: index %zu in a program", hex(s).c_str(), k);
            }
            mc::noteTrace();
        });
        for (int dep = 1; dep <= 3; ++dep)
            mc::family("expressions-" + I(dep), mc::power(8, dep) * (dep == 1 ? 216 : dep == 2 ? 216 * (mc::thorough ? 6 : 1) : (mc::thorough ? 216 : 36)), [dep](uint64_t i) {
                df::Opt o = df::stdOpt(); o.mustAccept = true; o.gc = i % 2 ? 0 : -1;
                uint64_t v = i;
                string e = expr(v, dep);
                df::compare(DECL + "s := \"glob\" out(" + e + ") func f(s: str): str { l := " + e + " return strcat(l, s) } out(f(hs(\"arg\")))", o);
            });
        mc::family("programs", 4 * mc::seqCount(OPS.size(), 2), [](uint64_t i) { machine((int)(i % 4), mc::seqAt(OPS.size(), i / 4)); }, [](uint64_t i) { return df::showSeq(mc::seqAt(OPS.size(), i / 4), OPS); });
        mc::family("programs-3", 2 * mc::power(OPS.size(), 3), [](uint64_t i) { size_t n = OPS.size(); machine((int)(i % 2) * 3, {(int)(i / 2 % n), (int)(i / 2 / n % n), (int)(i / 2 / n / n)}); });
        if (mc::thorough) mc::family("programs-4", mc::power(OPS.size(), 4), [](uint64_t i) { size_t n = OPS.size(); machine((int)(i % 2), {(int)(i % n), (int)(i / n % n), (int)(i / n / n % n), (int)(i / n / n / n)}); });
    });
}
