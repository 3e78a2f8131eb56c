// P17: dictionaries behave as maps from keys to values.
#include "direct.hpp"
#include "gen.hpp"
#include <set>
using namespace gen;
using df::Val;
static Direct &D() {
    static Direct *d = new Direct("use array(\"any\") as array_any use array(\"str\") as array_str struct S { v: int } func mks(v: int): S { return new S{v} }",
                                  [](Tiny_State *s) { df::bindExtraImpl(s); });
    return *d;
}
// ---------------------------------------------------------------- keys
// Several share a bucket of every table size up to 64, some wrap around its end.
static unsigned long djb(const string &s) { unsigned long h = 5381; for (char c : s) h = h * 33 + c; return h; }
static std::vector<string> strWith(unsigned bucket, int n) {       // strings which hash to a bucket of 64
    std::vector<string> r;
    for (int i = 0; (int)r.size() < n; ++i) { string s = "k" + I(i); if (djb(s) % 64 == bucket) r.push_back(s); }
    return r;
}
struct Key { char kind; long i; string s; };
static std::vector<Key> keys() {
    std::vector<Key> k;
    for (long i : {0, 64, 128, 1, 65, 31, 63, 32, -1, -64}) k.push_back({'i', i, ""});
    for (auto &s : strWith(0, 2)) k.push_back({'s', 0, s});
    for (auto &s : strWith(63, 2)) k.push_back({'s', 0, s});
    k.push_back({'s', 0, ""}); k.push_back({'c', 0, strWith(0, 1)[0]});      // a constant string equal to a computed one
    k.push_back({'b', 1, ""}); k.push_back({'b', 0, ""});
    k.push_back({'l', 128, ""}); k.push_back({'l', 192, ""}); k.push_back({'S', 0, ""}); k.push_back({'S', 1, ""}); k.push_back({'n', 0, ""});
    return k;
}
static const std::vector<Key> KEYS = keys();
static const int NK = (int)KEYS.size();
static Tiny_Value keep[64];                  // struct and native keys of the current case
static Tiny_Value mkKey(Direct &d, int k) {
    const Key &x = KEYS[k];
    switch (x.kind) {
        case 'i': return Tiny_NewInt(x.i);
        case 's': return d.str(x.s);
        case 'c': return Tiny_NewConstString(x.s.c_str());
        case 'b': return Tiny_NewBool(x.i);
        case 'l': return Tiny_NewLightNative((void *)x.i);
        default: return keep[k];
    }
}
// The key's name in the model: equal keys have the same one.
static string keyName(int k) {
    const Key &x = KEYS[k];
    return x.kind == 's' || x.kind == 'c' ? "s" + x.s : string(1, x.kind) + I(x.i);
}
static void freshKeys(Direct &d) {
    d.trim(5000);
    for (int k = 0; k < NK; ++k)
        if (KEYS[k].kind == 'S') keep[k] = d.script("mks", {Tiny_NewInt(KEYS[k].i)});
        else if (KEYS[k].kind == 'n') keep[k] = d("box", {Tiny_Null});
}
typedef std::map<string, long> Map;
static string canon(Tiny_Value v) {          // name of a listed key
    switch (v.type) {
        case TINY_VAL_INT: return "i" + I((long)v.i);
        case TINY_VAL_BOOL: return "b" + I(Tiny_ToBool(v));
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return "s" + string(Tiny_ToString(v), Tiny_StringLen(v));
        case TINY_VAL_LIGHT_NATIVE: return "l" + I((long)(intptr_t)Tiny_ToAddr(v));
        case TINY_VAL_STRUCT: return "S" + I((long)Tiny_ToInt(Tiny_GetField(v, 0)));
        case TINY_VAL_NATIVE: return "n0";
        default: return "?";
    }
}
// Everything observable against the model; returns the order in which the keys are listed.
static string check(Direct &d, Tiny_Value t, const Map &m, const std::vector<int> &ks, const string &what) {
    Tiny_Value l = d("dict_keys", {t}), vs = d("dict_values", {t});
    size_t n = (size_t)Tiny_ToInt(d("array_any_len", {l})), nv = (size_t)Tiny_ToInt(d("array_any_len", {vs}));
    if (n != m.size()) mc::fail("%zu keys are listed instead of %zu after %s", n, m.size(), what.c_str());
    if (nv != m.size()) mc::fail("%zu values are listed instead of %zu after %s", nv, m.size(), what.c_str());
    std::set<string> seen;
    std::multiset<long> v1, v2;
    string order;
    for (size_t i = 0; i < n; ++i) {
        Tiny_Value k = d("array_any_get", {l, Tiny_NewInt((Tiny_Int)i)});
        string c = canon(k);
        order += c + " ";
        if (!seen.insert(c).second) mc::fail("key %s is listed twice after %s", c.c_str(), what.c_str());
        if (!m.count(c)) mc::fail("key %s is listed but is not present after %s", c.c_str(), what.c_str());
        Tiny_Value g = d("dict_get", {t, k});
        if (g.type != TINY_VAL_INT || Tiny_ToInt(g) != m.at(c)) mc::fail("the value of listed key %s is %s, expected %ld after %s", c.c_str(), shown(g).c_str(), m.at(c), what.c_str());
        v1.insert((long)Tiny_ToInt(d("array_any_get", {vs, Tiny_NewInt((Tiny_Int)i)})));
        v2.insert(m.at(c));
    }
    if (v1 != v2) mc::fail("the values listed are not those of the keys after %s", what.c_str());
    for (int k : ks) {
        Tiny_Value key = mkKey(d, k);
        auto it = m.find(keyName(k));
        bool e = Tiny_ToBool(d("dict_exists", {t, key}));
        if (e != (it != m.end())) mc::fail("key %s %s after %s", keyName(k).c_str(), e ? "exists" : "does not exist", what.c_str());
        Tiny_Value g = d("dict_get", {t, key});
        if (it == m.end() ? g.type != TINY_VAL_NULL : g.type != TINY_VAL_INT || Tiny_ToInt(g) != it->second) mc::fail("key %s has value %s after %s", keyName(k).c_str(), shown(g).c_str(), what.c_str());
    }
    mc::noteTrace();
    return order;
}
static string opText(const std::vector<int> &ks, const std::vector<int> &ops) {
    string s;
    for (int o : ops) s += o == 2 * (int)ks.size() ? string("clear; ") : (o & 1 ? "remove " : "put ") + keyName(ks[o / 2]) + "; ";
    return s;
}
// Applies operations (2k: put key k, 2k+1: remove key k, last: clear) to a table prefilled with other keys.
struct Run { Tiny_Value t; Map m; size_t most; };
static Run apply(Direct &d, int prefill, int stride, const std::vector<int> &ks, const std::vector<int> &ops) {
    Run r;
    r.t = d.call("dict", nullptr, 0);
    r.most = 0;
    long next = 1;
    for (int i = 0; i < prefill; ++i) { long k = 1000 * 64 + 5 + (long)i * stride; d("dict_put", {r.t, Tiny_NewInt(k), Tiny_NewInt(next)}); r.m["i" + I(k)] = next++; }
    r.most = r.m.size();
    for (int o : ops) {
        if (o == 2 * (int)ks.size()) { d("dict_clear", {r.t}); r.m.clear(); continue; }
        Tiny_Value k = mkKey(d, ks[o / 2]);
        if (o & 1) { d("dict_remove", {r.t, k}); r.m.erase(keyName(ks[o / 2])); }
        else {
            // growing happens when putting anything into a table this full
            r.most = std::max(r.most, r.m.size());
            if (k.type == TINY_VAL_STRING && (o / 2) % 2) d("dict_set_index", {r.t, k, Tiny_NewInt(next)}); else d("dict_put", {r.t, k, Tiny_NewInt(next)});
            r.m[keyName(ks[o / 2])] = next++;
        }
        mc::noteTransitions(1);
    }
    return r;
}
// Breadth first over all reachable tables: histories of any length over these keys.
static void closure(int prefill, int stride, const std::vector<int> &ks) {
    Direct &d = D();
    freshKeys(d);
    std::map<string, std::vector<int>> seen;
    std::vector<std::vector<int>> todo{{}};
    int nops = 2 * (int)ks.size() + (prefill ? 0 : 1);
    auto visit = [&](const std::vector<int> &ops) {
        if (d.t.numObjects > 3000) freshKeys(d);
        Run r = apply(d, prefill, stride, ks, ops);
        string st = check(d, r.t, r.m, ks, "prefill " + I(prefill) + " stride " + I(stride) + ": " + opText(ks, ops));
        st += r.most >= 16 ? "|g" : "|";
        if (r.most >= 32) st += "g";
        uint64_t h = mc::hash(st) ^ (uint64_t)(prefill * 1000 + stride);
        mc::noteState(h);
        if (seen.emplace(st, ops).second) todo.push_back(ops);
    };
    seen["|"] = {};
    for (size_t i = 0; i < todo.size(); ++i)
        for (int o = 0; o < nops; ++o) { auto q = todo[i]; q.push_back(o); visit(q); }
}
static std::vector<int> subset(int n, int k, uint64_t idx) {       // the idx-th k-subset of 0..n-1
    std::vector<int> r;
    auto C = [](int a, int b) { uint64_t c = 1; if (b > a) return (uint64_t)0; for (int i = 0; i < b; ++i) c = c * (a - i) / (i + 1); return c; };
    int at = 0;
    while (k) { uint64_t c = C(n - at - 1, k - 1); if (idx < c) { r.push_back(at); --k; } else idx -= c; ++at; }
    return r;
}
static uint64_t choose(int a, int b) { uint64_t c = 1; for (int i = 0; i < b; ++i) c = c * (a - i) / (i + 1); return c; }
// ---------------------------------------------------------------- sizes
static Tiny_Value sized(Direct &d, int kind, long i, string &name) {
    switch (kind) {
        case 0: name = "i" + I(i); return Tiny_NewInt(i);
        case 1: name = "i" + I(i * 32); return Tiny_NewInt(i * 32);
        case 2: name = "i" + I(-i * 1024 + 7); return Tiny_NewInt(-i * 1024 + 7);
        case 3: { string s = "key" + I(i * 7); name = "s" + s; return d.str(s); }
        case 4: { string s(i % 50, (char)('a' + i % 3)); s += I(i); name = "s" + s; return d.str(s); }
        case 5: name = "l" + I(i * 64 + 64); return Tiny_NewLightNative((void *)(i * 64 + 64));
        case 6: if (i % 2) { name = "s" + I(i); return d.str(I(i)); } name = "i" + I(i); return Tiny_NewInt(i);
        default: { long k = (long)((uint64_t)i * 0x9E3779B97F4A7C15ull >> 1); name = "i" + I(k); return Tiny_NewInt(k); }
    }
}
static void all(Direct &d, Tiny_Value t, const Map &m, int kind, int n, const string &what) {
    check(d, t, m, {}, what);
    for (int i = 0; i < n; ++i) {
        string nm;
        Tiny_Value k = sized(d, kind, i, nm);
        if (Tiny_ToBool(d("dict_exists", {t, k})) != (m.count(nm) > 0)) mc::fail("key %s: existence is wrong after %s", nm.c_str(), what.c_str());
        Tiny_Value g = d("dict_get", {t, k});
        if (m.count(nm) ? g.type != TINY_VAL_INT || Tiny_ToInt(g) != m.at(nm) : g.type != TINY_VAL_NULL) mc::fail("key %s: value is %s after %s", nm.c_str(), shown(g).c_str(), what.c_str());
    }
}
// ---------------------------------------------------------------- programs
static TINY_FOREIGN_FUNCTION(fBag) {
    std::vector<string> e;
    for (Tiny_Int k = 0, n = Tiny_ToInt(df::callForeign(thread, "array_any_len", {args[0]})); k < n; ++k) { string x; df::deepT(x, thread, df::callForeign(thread, "array_any_get", {args[0], Tiny_NewInt(k)}), 3); e.push_back(x); }
    std::sort(e.begin(), e.end());
    string &o = df::logOf(thread)->out;
    o += "bag(";
    for (auto &x : e) o += x + ",";
    o += ");";
    return Tiny_Null;
}
static df::Opt opt(long gc) {
    df::Opt o = df::stdOpt();
    auto b = o.binder; auto rb = o.refBinder;
    o.binder = [b](Tiny_State *s) { b(s); Tiny_BindFunction(s, "bag(any): void", fBag); };
    o.refBinder = [rb](df::RefEnv &R) {
        rb(R);
        df::RefEnv *P = &R;
        R.S.bind("bag(any): void", [P](std::vector<Val> &a) {
            std::vector<string> e;
            for (auto &v : df::seq(a[0])) { string x; df::deepR(x, v, 3); e.push_back(x); }
            std::sort(e.begin(), e.end());
            P->log += "bag(";
            for (auto &x : e) P->log += x + ",";
            P->log += ");";
            return Val{}; });
    };
    o.checkGlobals = false;
    o.gc = gc;
    return o;
}
static const string DECL = "use array(\"any\") as array_any use array(\"str\") as array_str\nstruct K { v: int }\nfunc put(d: dict, k: any, v: any): dict { dict_put(d, k, v) return d }\nfunc get(d: dict, k: str): any { return d[k] }\n";
static const string VARS = "d := dict() e := dict(\"a\", 1, 2, hs(\"two\"), true, 1.5) f := dict_str_int(\"one\", 1) k := new K{1} l := new K{1} n := mknat() c := 0\n";
static const std::vector<string> OPS = {
    "d[\"x\"] = c c = c + 1", "d[hs(\"x\")] = hs(\"v\", c) c = c + 1", "put(d, 5, c) c = c + 1", "put(d, 37, d)", "dict_put(d, k, hs(\"kk\"))", "dict_put(d, l, k)", "dict_put(d, n, n)", "dict_put(d, false, null)", "dict_remove(d, \"x\")",
    "dict_remove(d, 5)", "dict_remove(d, k)", "dict_clear(d)", "d = e", "e = d", "dump(get(d, \"x\"), e[\"a\"], e[\"none\"])", "dump(dict_exists(d, \"x\"), dict_exists(d, 37), dict_exists(d, l), dict_exists(e, 2), dict_exists(d, true))",
    "bag(dict_keys(d)) bag(dict_values(e))", "dict_str_int_put(f, \"two\", 2)", "dict_str_int_put(f, hs(\"one\"), c) c = c + 1", "dict_str_int_remove(f, \"one\")", "dump(dict_str_int_exists(f, \"two\"), dict_str_int_get(f, \"one\")) bag(dict_str_int_keys(f))", "dict_str_int_clear(f)",
    "for i := 0; i < 20; i += 1 { dict_put(d, i * 3, i) }", "for i := 0; i < 12; i += 1 { d[hs(\"s\", i)] = hs(\"t\", i) }", "for i := 0; i < 20; i += 1 { dict_remove(d, i * 3) }", "ks := dict_keys(d) for i := 0; i < array_any_len(ks); i += 1 { out(dict_exists(d, ks[i])) dict_remove(d, ks[i]) }", "d = dict(hs(\"x\"), hs(\"y\"), c, e)",
    "k = new K{c}", "d[\"x\"] = d[\"y\"]",
};
static df::Machine M[4];
static void machine(int which, const std::vector<int> &q) {
    df::Machine &m = M[which];
    if (!m.text) {
        m.opt = opt(which >= 2 ? 0 : -1);
        bool local = which & 1;
        m.text = [local] { return df::machine(sub(DECL, "use array(\"str\") as array_str", "use array(\"str\") as array_str"), VARS, OPS, "dump(d)", "dump(d, e, f, k) bag(dict_keys(d)) bag(dict_values(d))", local); };
    }
    m.run(q);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        static const int P[][2] = {{0, 1}, {13, 1}, {14, 2}, {15, 64}, {29, 1}};
        static const int K1 = mc::thorough ? 5 : 4;
        for (int p = 0; p < 5; ++p) {
            int k = p == 0 ? K1 : p == 4 ? (mc::thorough ? 4 : 2) : (mc::thorough ? 4 : 3);
            mc::family("reachable-" + I(P[p][0]), choose(NK, k), [p, k](uint64_t i) { closure(P[p][0], P[p][1], subset(NK, k, i)); },
                       [k](uint64_t i) { string s = "keys "; for (int x : subset(NK, k, i)) s += keyName(x) + " "; return s; });
        }
        // more keys, all in one or two buckets
        mc::family("clusters", mc::thorough ? 8 : 4, [](uint64_t i) {
            static const std::vector<std::vector<int>> S = {{0, 1, 2, 10, 11, 19}, {5, 6, 7, 0, 1}, {6, 8, 12, 13, 0}, {0, 7, 1, 2, 18}, {0, 1, 2, 10, 11, 18, 19}, {6, 8, 12, 13, 0, 1}, {5, 6, 7, 9, 12, 0}, {15, 16, 17, 3, 4, 18}};
            closure(0, 1, S[i]);
        });
        mc::family("histories", mc::power(16, mc::thorough ? 6 : 5), [](uint64_t i) {
            static const std::vector<int> ks = {0, 1, 2, 6, 8, 10, 16, 20};
            Direct &d = D();
            freshKeys(d);
            std::vector<int> ops;
            for (int k = 0; k < (mc::thorough ? 6 : 5); ++k, i /= 16) ops.push_back((int)(i % 16));
            Run r = apply(d, 0, 1, ks, ops);
            check(d, r.t, r.m, ks, opText(ks, ops));
        });
        auto sizes = [](int kind, int n) {
            Direct &d = D();
            freshKeys(d);
                        string what = I(n) + " keys of kind " + I(kind), nm;
            Map m;
            Tiny_Value t = d.call("dict", nullptr, 0);
            for (int k = 0; k < n; ++k) { Tiny_Value x = sized(d, kind, k, nm); d("dict_put", {t, x, Tiny_NewInt(k)}); m[nm] = k; }
            all(d, t, m, kind, n + 3, what);
            for (int k = 0; k < n; k += 2) { Tiny_Value x = sized(d, kind, k, nm); d("dict_remove", {t, x}); m.erase(nm); }
            all(d, t, m, kind, n, what + ", every other removed");
            for (int k = n - 1; k >= 0; k -= 3) { Tiny_Value x = sized(d, kind, k, nm); d("dict_put", {t, x, Tiny_NewInt(k + 7)}); m[nm] = k + 7; }
            all(d, t, m, kind, n, what + ", every third put again");
            for (int k = n - 1; k >= 0; --k) { Tiny_Value x = sized(d, kind, k, nm); d("dict_remove", {t, x}); m.erase(nm); }
            all(d, t, m, kind, n, what + ", all removed");
            for (int k = 0; k < n; ++k) { Tiny_Value x = sized(d, kind, k, nm); d("dict_put", {t, x, Tiny_NewInt(-k)}); m[nm] = -k; }
            d("dict_clear", {t}); m.clear();
            all(d, t, m, kind, n, what + ", cleared");
        };
        mc::family("sizes", (mc::thorough ? 1200 : 300) * 8, [sizes](uint64_t i) {
            int n = (int)(i / 8);
            sizes((int)(i % 8), n > 300 ? 300 + (n - 300) * 5 : n);
        });
        static const std::vector<int> BIG = {511, 512, 513, 1023, 1024, 1025, 2048, 4096, 8191, 8192, 33000, 66000};
        mc::family("large", BIG.size() * 8, [sizes](uint64_t i) { if (i % 8 == 3 || i % 8 == 7 || (BIG[i / 8] <= (mc::thorough ? 8192 : 1025))) sizes((int)(i % 8), BIG[i / 8]); }, [](uint64_t i) { return I(BIG[i / 8]) + " keys of kind " + I((long)(i % 8)); });
        // one key spelled as a literal and as a computed string: every length, every byte, and neighbours which differ in one place
        mc::family("spelled", 4 * (mc::thorough ? 2048 : 280), [](uint64_t i) {
            Direct &d = D();
            freshKeys(d);
            size_t n = i / 4;
            string s(n, 'x');
            for (size_t k = 0; k < n; ++k) s[k] = i % 4 == 0 ? (char)('a' + k % 23) : i % 4 == 1 ? (char)(255 - k % 255) : i % 4 == 2 ? (char)(1 + (k * 7 + n) % 255) : 'k';
            std::vector<string> all{s};
            for (size_t k : {(size_t)0, n / 2, n - 1, std::min<size_t>(n, 16) - 1, std::min<size_t>(n, 64) - 1}) if (k < n) { string o = s; o[k] = o[k] == 'q' ? 'r' : 'q'; if (std::find(all.begin(), all.end(), o) == all.end()) all.push_back(o); }
            if (n) all.push_back(s.substr(1)), all.push_back(s.substr(0, n - 1));
            all.push_back(s + "k");
            std::sort(all.begin(), all.end());
            all.erase(std::unique(all.begin(), all.end()), all.end());
            auto key = [&](size_t k, bool literal) { return literal ? Tiny_NewConstString(all[k].c_str()) : d.str(all[k]); };
            for (int how = 0; how < 4; ++how) {
                string what = "keys of " + I((long)n) + " bytes";
                Tiny_Value t = d.call("dict", nullptr, 0);
                Map m;
                for (size_t k = 0; k < all.size(); ++k) { d("dict_put", {t, key(k, how & 1), Tiny_NewInt((Tiny_Int)k)}); m["s" + all[k]] = (long)k; }
                auto look = [&](const char *after) {
                    check(d, t, m, {}, what + after);
                    for (size_t k = 0; k < all.size(); ++k) for (bool l : {false, true}) {
                        bool in = m.count("s" + all[k]);
                        if (Tiny_ToBool(d("dict_exists", {t, key(k, l)})) != in) mc::fail("%s%s: %s key '%s' is %s", what.c_str(), after, l ? "literal" : "computed", all[k].c_str(), in ? "missing" : "present");
                        Tiny_Value g = d("dict_get", {t, key(k, l)});
                        if (in ? g.type != TINY_VAL_INT || Tiny_ToInt(g) != m["s" + all[k]] : g.type != TINY_VAL_NULL) mc::fail("%s%s: %s key '%s' has value %s", what.c_str(), after, l ? "literal" : "computed", all[k].c_str(), shown(g).c_str());
                    }
                };
                look("");
                for (size_t k = 0; k < all.size(); ++k) { d("dict_set_index", {t, key(k, !(how & 1)), Tiny_NewInt((Tiny_Int)k + 50)}); m["s" + all[k]] = (long)k + 50; }
                look(", all set again in the other spelling");
                for (size_t k = how >> 1; k < all.size(); k += 2) { d("dict_remove", {t, key(k, !(how & 1))}); m.erase("s" + all[k]); }
                look(", every other removed in the other spelling");
                if (d.t.numObjects > 3000) freshKeys(d);
            }
        }, [](uint64_t i) { return I((long)(i / 4)) + " bytes, kind " + I((long)(i % 4)); });
        mc::family("arguments", 3 * 28, [](uint64_t i) {
            int n = (int)(i / 3), g = (int)(i % 3);
            string a;
            for (int k = 0; k < n; ++k) a += (k ? ", " : "") + (g == 0 ? I(k * 32) + ", " + I(k) : g == 1 ? "hs(\"k\", " + I(k % 17) + "), hs(\"v\", " + I(k) + ")" : I(k % 5) + ", null");
            df::Opt o = opt(n % 2 ? 0 : -1); o.mustAccept = true;
            df::compare(DECL + "x := dict(" + a + ") dump(x) bag(dict_keys(x)) bag(dict_values(x)) func f() { y := dict(" + a + ") dump(y) } f()", o);
        });
        mc::family("programs", 4 * mc::seqCount(OPS.size(), mc::thorough ? 3 : 2), [](uint64_t i) { machine((int)(i % 4), mc::seqAt(OPS.size(), i / 4)); }, [](uint64_t i) { return df::showSeq(mc::seqAt(OPS.size(), i / 4), OPS); });
        mc::family("programs-3", mc::thorough ? mc::power(OPS.size(), 3) * 1 : mc::power(OPS.size(), 3), [](uint64_t i) { machine((int)(i % 2), {(int)(i % OPS.size()), (int)(i / OPS.size() % OPS.size()), (int)(i / OPS.size() / OPS.size())}); });
        if (mc::thorough) mc::family("programs-4", mc::power(OPS.size(), 4), [](uint64_t i) { size_t n = OPS.size(); machine(0, {(int)(i % n), (int)(i / n % n), (int)(i / n / n % n), (int)(i / n / n / n)}); });
    });
}
