// P19: equality is an equivalence, conversions report kinds faithfully.
#include <cmath>
#include "direct.hpp"
#include "gen.hpp"
using namespace gen;
using df::Val;
static const char *SRC =
    "use array(\"any\") as array_any\n"
    "struct P { a: any } struct Q { a: any b: int c: str }\n"
    "g: any = null\n"
    "func id(a: any): any { return a }\n"
    "func viaLocal(a: any): any { x := a y := 5 { z := x return z } }\n"
    "func viaField(a: any): any { p := new Q{1, 2, \"c\"} p.a = a return p.a }\n"
    "func viaCtor(a: any): any { return (new P{new P{a}.a}).a }\n"
    "func viaGlobal(a: any): any { g = a return g }\n"
    "func viaArray(a: any): any { x := array_any(1, a) array_any_push(x, x[1]) return x[2] }\n"
    "func viaDict(a: any): any { d := dict(\"k\", a) return d[\"k\"] }\n"
    "func viaCall(a: any): any { return id(id(a)) }\n"
    "func viaForeign(a: any): any { return ta(a) }\n"
    "func viaTernary(a: any): any { return if true a else null }\n"
    "func eq(a: any, b: any): bool { return a == b }\n"
    "func ne(a: any, b: any): bool { return a != b }\n"
    "func eqFields(a: any, b: any): bool { p := new P{a} q := new P{b} return p.a == q.a }\n"
    "func eqIf(a: any, b: any): bool { if a == b { return true } return false }\n"
    "func neLoop(a: any, b: any): bool { r := false while a != b { r = true break } return r }\n"
    "func not(a: any, b: any): bool { return !(a == b) }\n"
    "func eqInt(a: any, b: any): bool { return cast(a, int) == cast(b, int) }\n"
    "func neInt(a: any, b: any): bool { return cast(a, int) != cast(b, int) }\n"
    "func eqFloat(a: any, b: any): bool { return cast(a, float) == cast(b, float) }\n"
    "func eqStr(a: any, b: any): bool { return cast(a, str) == cast(b, str) }\n"
    "func neStr(a: any, b: any): bool { return cast(a, str) != cast(b, str) }\n"
    "func eqBool(a: any, b: any): bool { return cast(a, bool) == cast(b, bool) }\n"
    "func eqP(a: any, b: any): bool { return cast(a, P) == cast(b, P) }\n"
    "func isNull(a: any): bool { return a == null }\n"
    "func notNull(a: any): bool { return null != a }\n"
    "func mkP(a: any): P { return new P{a} }\n"
    "func mkQ(a: any): Q { return new Q{a, 7, \"q\"} }\n";
static Direct &D() { static Direct *d = new Direct(SRC, [](Tiny_State *s) { df::bindExtraImpl(s); }); return *d; }
// A value with its name in the model: equal values, and only those, have the same (nan equals nothing).
struct V { Tiny_Value v; char kind; string cls; long long i; double f; string s; const void *addr; const Tiny_NativeProp *prop; int fields; };
static std::vector<V> vals, ints, floats, strs;
static const Tiny_NativeProp otherProp = {"other", nullptr, nullptr};
static int cellA, cellB;
static std::vector<Tiny_Value> protect;
static void mkInts() {
    if (!ints.empty()) return;
    auto add = [](long long x) { V v{Tiny_NewInt(x), 'i', "i" + std::to_string(x), x, 0, "", nullptr, nullptr, -1}; ints.push_back(v); };
    std::vector<long long> xs = {0};
    for (int b = 0; b < 63; ++b) for (long long e : {-1, 0, 1}) { xs.push_back((1ll << b) + e); xs.push_back(-(1ll << b) + e); }
    for (long long x : {(long long)INT64_MAX, (long long)INT64_MIN, (long long)INT64_MIN + 1, 255ll, 256ll, 100ll}) xs.push_back(x);
    std::sort(xs.begin(), xs.end());
    xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
    for (auto x : xs) add(x);
}
static void mkFloats() {
    if (!floats.empty()) return;
    for (double x : {0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, (double)INFINITY, -(double)INFINITY, (double)NAN, 5e-324, -5e-324, 1.0000000000000002, 3.0, 4294967296.0, 9007199254740993.0, -2.5, 0.1, 0.30000000000000004, 0.3}) {
        char b[64];
        snprintf(b, 64, "f%a", x == 0 ? 0.0 : x);
        floats.push_back({Tiny_NewFloat(x), 'f', b, 0, x, "", nullptr, nullptr, -1});
    }
}
static void mkStrs() {
    if (!strs.empty()) return;
    Direct &d = D();
    for (string s : {string(""), string("a"), string("b"), string("ab"), string("aa"), string("0"), string("true"), string("\xff"), string("a\0", 2), string("a\0b", 3), string("a\0c", 3), string(300, 'x'), string(300, 'x') + "y", string("null")})
        for (int w = 0; w < 4; ++w) {
            Tiny_Value v;
            if (w == 0) v = d.str(s);
            else if (w == 1) { char *p = (char *)Tiny_AllocUsingContext(d.t.ctx, nullptr, s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; v = Tiny_NewString(&d.t, p, s.size()); }
            else if (s.find('\0') != string::npos) continue;
            else v = Tiny_NewConstString(strdup(s.c_str()));
            strs.push_back({v, 's', "s" + s, 0, 0, s, nullptr, nullptr, -1});
        }
}
static void mkVals() {
    if (!vals.empty()) return;
    Direct &d = D();
    mkInts(); mkFloats(); mkStrs();
    auto add = [](Tiny_Value v, char k, string c) -> V & { vals.push_back({v, k, c, 0, 0, "", nullptr, nullptr, -1}); return vals.back(); };
    add(Tiny_Null, 'N', "null");
    Tiny_Value z; memset(&z, 0x5a, sizeof z); z.type = TINY_VAL_NULL;           // whatever else a null value carries
    add(z, 'N', "null");
    for (int b = 0; b < 2; ++b) { add(Tiny_NewBool(b), 'b', "b" + I(b)).i = b; Tiny_Value w; memset(&w, 0x33, sizeof w); w.type = TINY_VAL_BOOL; w.boolean = b; add(w, 'b', "b" + I(b)).i = b; }
    for (auto &x : ints) if (x.i > -3 && x.i < 3) vals.push_back(x); else if (x.i == INT64_MAX || x.i == INT64_MIN || x.i == 4294967296ll || x.i == 4294967297ll || x.i == 97) vals.push_back(x);
    for (size_t k = 0; k < 10; ++k) vals.push_back(floats[k]);
    for (auto &x : strs) if (x.s.size() < 3) vals.push_back(x);
    for (int k = 0; k < 2; ++k) { Tiny_Value p = d.script("mkP", {Tiny_NewInt(1)}); V &v = add(p, 'S', "P" + I(k)); v.fields = 1; v.i = 1; }
    { Tiny_Value q = d.script("mkQ", {Tiny_NewInt(1)}); V &v = add(q, 'S', "Q"); v.fields = 3; v.i = 1; }
    struct { void *a; const Tiny_NativeProp *p; } n[] = {{&cellA, &otherProp}, {&cellA, &otherProp}, {&cellB, &otherProp}, {&cellA, nullptr}, {nullptr, &otherProp}};
    for (int k = 0; k < 5; ++k) { V &v = add(Tiny_NewNative(&d.t, n[k].a, n[k].p), (char)79, "nat" + I((long)(intptr_t)n[k].a)); v.addr = n[k].a; v.prop = n[k].p; }
    for (void *a : {(void *)&cellA, (void *)&cellB, (void *)nullptr, (void *)1}) { V &v = add(Tiny_NewLightNative(a), 'L', "l" + I((long)(intptr_t)a)); v.addr = a; }
    { V &v = add(Tiny_NewLightNative(&cellA), 'L', "l" + I((long)(intptr_t)&cellA)); v.addr = &cellA; }
    { Tiny_Value b = d("box", {Tiny_NewInt(1)}); V &v = add(b, (char)79, "box"); v.addr = Tiny_ToAddr(b); v.prop = &df::boxProp; }
}
static bool want(const V &a, const V &b) { return a.cls == b.cls && !(a.kind == 'f' && a.f != a.f); }
static string nm(const V &a) { return a.cls + " (" + shown(a.v) + ")"; }
static bool yes(Direct &d, const char *f, Tiny_Value a, Tiny_Value b) {
    Tiny_Value r = d.script(f, {a, b});
    if (r.type != TINY_VAL_BOOL) mc::fail("%s gives %s", f, shown(r).c_str());
    return Tiny_ToBool(r);
}
static void pair(const V &a, const V &b) {
    Direct &d = D();
    bool w = want(a, b);
    if (Tiny_AreValuesEqual(a.v, b.v) != w) mc::fail("the host finds %s and %s %s", nm(a).c_str(), nm(b).c_str(), w ? "different" : "equal");
    for (auto f : {"eq", "eqFields", "eqIf"}) if (yes(d, f, a.v, b.v) != w) mc::fail("a program (%s) finds %s and %s %s", f, nm(a).c_str(), nm(b).c_str(), w ? "different" : "equal");
    for (auto f : {"ne", "neLoop", "not"}) if (yes(d, f, a.v, b.v) == w) mc::fail("a program (%s) finds %s and %s %s", f, nm(a).c_str(), nm(b).c_str(), w ? "different" : "equal");
    if (a.kind == b.kind) {
        const char *f = a.kind == 'i' ? "eqInt" : a.kind == 'f' ? "eqFloat" : a.kind == 's' ? "eqStr" : a.kind == 'b' ? "eqBool" : a.kind == 'S' && a.cls[0] == 'P' && b.cls[0] == 'P' ? "eqP" : nullptr;
        if (f && yes(d, f, a.v, b.v) != w) mc::fail("typed comparison (%s) finds %s and %s %s", f, nm(a).c_str(), nm(b).c_str(), w ? "different" : "equal");
        f = a.kind == 'i' ? "neInt" : a.kind == 's' ? "neStr" : nullptr;
        if (f && yes(d, f, a.v, b.v) == w) mc::fail("typed comparison (%s) finds %s and %s %s", f, nm(a).c_str(), nm(b).c_str(), w ? "different" : "equal");
    }
    mc::noteState(mc::hash(a.cls + "|" + b.cls));
    mc::noteTransitions(8);
    mc::noteTrace();
}
static void accessors(const V &a, const char *how) {
    Tiny_Value v = a.v;
    string n = nm(a) + " " + how;
    static const std::map<char, std::vector<int>> T = {{'N', {TINY_VAL_NULL}}, {'b', {TINY_VAL_BOOL}}, {'i', {TINY_VAL_INT}}, {'f', {TINY_VAL_FLOAT}}, {'s', {TINY_VAL_STRING, TINY_VAL_CONST_STRING}}, {'S', {TINY_VAL_STRUCT}}, {'O', {TINY_VAL_NATIVE}}, {'L', {TINY_VAL_LIGHT_NATIVE}}};
    bool kind = false;
    for (int t : T.at(a.kind)) kind |= v.type == t;
    if (!kind) mc::fail("%s has kind %d", n.c_str(), (int)v.type);
    if (Tiny_IsNull(v) != (a.kind == 'N')) mc::fail("%s: IsNull", n.c_str());
    if (Tiny_ToBool(v) != (a.kind == 'b' && a.i)) mc::fail("%s: ToBool is %d", n.c_str(), Tiny_ToBool(v));
    if (Tiny_ToInt(v) != (a.kind == 'i' ? a.i : 0)) mc::fail("%s: ToInt is %lld", n.c_str(), (long long)Tiny_ToInt(v));
    auto sameF = [](double x, double y) { return (x == y && std::signbit(x) == std::signbit(y)) || (x != x && y != y); };
    if (!sameF(Tiny_ToFloat(v), a.kind == 'f' ? a.f : 0)) mc::fail("%s: ToFloat is %a", n.c_str(), Tiny_ToFloat(v));
    if (!sameF(Tiny_ToNumber(v), a.kind == 'f' ? a.f : a.kind == 'i' ? (double)a.i : 0)) mc::fail("%s: ToNumber is %a", n.c_str(), Tiny_ToNumber(v));
    const char *s = Tiny_ToString(v);
    if (a.kind == 's' ? !s || Tiny_StringLen(v) != a.s.size() || memcmp(s, a.s.data(), a.s.size()) : s || Tiny_StringLen(v)) mc::fail("%s: ToString is %s, length %zu", n.c_str(), s ? s : "NULL", Tiny_StringLen(v));
    if (Tiny_ToAddr(v) != (a.kind == 'O' || a.kind == 'L' ? a.addr : nullptr)) mc::fail("%s: ToAddr is %p", n.c_str(), Tiny_ToAddr(v));
    if (Tiny_GetProp(v) != (a.kind == 'O' ? a.prop : nullptr)) mc::fail("%s: GetProp", n.c_str());
    if (a.kind == 'S') {
        for (int k = 0; k < a.fields; ++k) {
            Tiny_Value f = Tiny_GetField(v, k);
            if (k == 0 && (f.type != TINY_VAL_INT || Tiny_ToInt(f) != a.i)) mc::fail("%s: field 0 is %s", n.c_str(), shown(f).c_str());
            if (k == 1 && (f.type != TINY_VAL_INT || Tiny_ToInt(f) != 7)) mc::fail("%s: field 1 is %s", n.c_str(), shown(f).c_str());
            if (k == 2 && (!Tiny_ToString(f) || strcmp(Tiny_ToString(f), "q"))) mc::fail("%s: field 2 is %s", n.c_str(), shown(f).c_str());
        }
    } else if (Tiny_GetField(v, 0).type != TINY_VAL_NULL) mc::fail("%s: GetField gives %s", n.c_str(), shown(Tiny_GetField(v, 0)).c_str());
    mc::noteTrace();
}
static const char *WAYS[] = {"id", "viaLocal", "viaField", "viaCtor", "viaGlobal", "viaArray", "viaDict", "viaCall", "viaForeign", "viaTernary"};
static const int NWAYS = 10;
static std::vector<V> *group(int g) { mkVals(); return g == 0 ? &vals : g == 1 ? &ints : g == 2 ? &floats : &strs; }
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        // sizes of the groups are fixed by the alphabets above
        static const int GN[] = {70, 400, 20, 60};
        static const char *GNM[] = {"values", "ints", "floats", "strings"};
        for (int g = 0; g < 4; ++g) {
            mc::family(string("pairs-of-") + GNM[g], (uint64_t)GN[g] * GN[g], [g](uint64_t i) {
                auto &v = *group(g);
                size_t a = i % GN[g], b = i / GN[g];
                if (v.size() > (size_t)GN[g]) mc::fail("alphabet of %zu values", v.size());
                if (a >= v.size() || b >= v.size()) return;
                pair(v[a], v[b]);
            });
            mc::family(string("accessors-") + GNM[g], GN[g], [g](uint64_t i) {
                auto &v = *group(g);
                if (i >= v.size()) return;
                accessors(v[i], "");
                Direct &d = D();
                for (int w = 0; w < NWAYS; ++w) {
                    V t = v[i];
                    t.v = d.script(WAYS[w], {v[i].v});
                    accessors(t, WAYS[w]);
                    pair(v[i], t);
                    for (int u = 0; u < NWAYS; ++u) { V x = v[i]; x.v = d.script(WAYS[u], {t.v}); accessors(x, WAYS[u]); pair(t, x); }
                }
                Tiny_SetGlobal(&d.t, Tiny_GetGlobalIndex(d.s, "g"), v[i].v);
                V x = v[i]; x.v = Tiny_GetGlobal(&d.t, Tiny_GetGlobalIndex(d.s, "g"));
                accessors(x, "through a global");
                bool null = v[i].kind == 'N';
                Tiny_Value r = d.script("isNull", {v[i].v});
                if (r.type != TINY_VAL_BOOL || Tiny_ToBool(r) != null) mc::fail("%s == null is %s", nm(v[i]).c_str(), shown(r).c_str());
                r = d.script("notNull", {v[i].v});
                if (r.type != TINY_VAL_BOOL || Tiny_ToBool(r) == null) mc::fail("null != %s is %s", nm(v[i]).c_str(), shown(r).c_str());
            });
        }
        // the relation itself, independent of the model
        mc::family("triples", 70 * 70, [](uint64_t i) {
            auto &v = *group(0);
            size_t a = i % 70, b = i / 70;
            if (a >= v.size() || b >= v.size()) return;
            bool ab = Tiny_AreValuesEqual(v[a].v, v[b].v);
            if (ab != Tiny_AreValuesEqual(v[b].v, v[a].v)) mc::fail("equality of %s and %s is not symmetric", nm(v[a]).c_str(), nm(v[b]).c_str());
            if (ab && v[a].kind != v[b].kind) mc::fail("%s and %s are of different kinds and equal", nm(v[a]).c_str(), nm(v[b]).c_str());
            for (auto &c : v)
                if (ab && Tiny_AreValuesEqual(v[b].v, c.v) && !Tiny_AreValuesEqual(v[a].v, c.v)) mc::fail("equality of %s, %s and %s is not transitive", nm(v[a]).c_str(), nm(v[b]).c_str(), nm(c).c_str());
            mc::noteTransitions(v.size());
            mc::noteTrace();
        });
        // pairs whose sides are carried in different ways
        mc::family("carried-pairs", 70 * 70 * (mc::thorough ? 100 : 10), [](uint64_t i) {
            auto &v = *group(0);
            Direct &d = D();
            size_t a = i % 70, b = i / 70 % 70;
            int w = (int)(i / 4900);
            if (a >= v.size() || b >= v.size()) return;
            V x = v[a], y = v[b];
            x.v = d.script(WAYS[w % 10], {x.v});
            y.v = d.script(WAYS[mc::thorough ? w / 10 : (w + 3) % 10], {y.v});
            pair(x, y);
        });
        mc::family("all-strings", mc::seqCount(3, 4) * mc::seqCount(3, 4), [](uint64_t i) {
            Direct &d = D();
            d.trim();
            vals.clear(); ints.clear(); floats.clear(); strs.clear();
            static const char A[] = {'a', 'b', '\0'};
            uint64_t n = mc::seqCount(3, 4);
            string x, y;
            for (int c : mc::seqAt(3, i % n)) x += A[c];
            for (int c : mc::seqAt(3, i / n)) y += A[c];
            V a{d.str(x), 's', "s" + x, 0, 0, x, nullptr, nullptr, -1}, b{d.str(y), 's', "s" + y, 0, 0, y, nullptr, nullptr, -1};
            pair(a, b);
            if (x.find('\0') == string::npos) { a.v = Tiny_NewConstString(x.c_str()); pair(a, b); if (y.find('\0') == string::npos) { b.v = Tiny_NewConstString(y.c_str()); pair(a, b); } }
        });
        // strings which differ in a single byte, or only in length, of any length
        static std::vector<std::pair<int, int>> LP;
        for (int L : {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257}) for (int p = 0; p <= L; ++p) LP.push_back({L, p});
        for (int L : {300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000}) for (int p : {0, 1, 63, 64, 127, 128, 255, 256, 257, L / 2, L - 2, L - 1, L}) LP.push_back({L, p});
        mc::family("long-strings", LP.size(), [](uint64_t i) {
            Direct &d = D();
            d.trim(400);
            vals.clear(); ints.clear(); floats.clear(); strs.clear();
            int L = LP[i].first, p = LP[i].second;
            static const char B[][2] = {{'a', 'A'}, {'a', 'b'}, {'x', (char)('x' | 0x80)}, {' ', '\t'}, {'1', '\0'}};
            for (auto &b : B) {
                string x, y;
                for (int k = 0; k < L; ++k) x += (char)('a' + k * 7 % 26);
                y = x;
                if (p < L) { x[p] = b[0]; y[p] = b[1]; }
                else { if (b != B[1] && b != B[4]) continue; if (b == B[1]) y += 'a'; else y += '\0'; }
                string same = x;
                for (int rep = 0; rep < 4; ++rep) {
                    if (((rep & 1) && x.find('\0') != string::npos) || ((rep & 2) && y.find('\0') != string::npos)) continue;
                    V u{rep & 1 ? Tiny_NewConstString(x.c_str()) : d.str(x), 's', "s" + x, 0, 0, x, nullptr, nullptr, -1}, v{rep & 2 ? Tiny_NewConstString(y.c_str()) : d.str(y), 's', "s" + y, 0, 0, y, nullptr, nullptr, -1};
                    V w{rep & 2 ? Tiny_NewConstString(same.c_str()) : d.str(same), 's', "s" + x, 0, 0, x, nullptr, nullptr, -1};
                    pair(u, v); pair(v, u); pair(u, w);
                }
            }
        }, [](uint64_t i) { return "strings of length " + I(LP[i].first) + " which differ at " + I(LP[i].second); });
    });
}
