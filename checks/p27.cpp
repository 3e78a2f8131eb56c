// P27: arenas.  The allocator is driven directly; its memory comes from a context which gives out
// exactly sized blocks (the sanitizer guards their ends) at chosen distances from large alignments.
#include "diff.hpp"
#include "gen.hpp"
extern "C" {
#include "arena.h"
}
#include <map>
using namespace gen;
struct Mem {                                   // what the arenas got from their context
    std::map<char *, std::pair<void *, size_t>> live;
    size_t offset = 16;
    long frees = 0;
};
static void *alloc(void *p, size_t n, void *u) {
    Mem &m = *(Mem *)u;
    char *q = nullptr;
    if (n) {
        void *raw;
        if (posix_memalign(&raw, 4096, n + m.offset)) mc::fail("out of memory");
        q = (char *)raw + m.offset;
        memset(q, 0xA5, n);
        m.live[q] = {raw, n};
    }
    if (p) {
        auto i = m.live.find((char *)p);
        if (i == m.live.end()) mc::fail("releases memory which it does not own");
        if (q) memcpy(q, p, std::min(n, i->second.second));
        free(i->second.first);
        m.live.erase(i);
        ++m.frees;
    }
    return q;
}
static Tiny_Context ctx(Mem &m) { Tiny_Context c; c.alloc = alloc; c.userdata = &m; return c; }
struct Block { unsigned char *p; size_t n, align; unsigned char fill; };
struct Arena {
    Tiny_Arena a;
    std::vector<Block> b;
};
static void verify(const Arena &x, const string &what) {
    for (auto &k : x.b)
        for (size_t i = 0; i < k.n; ++i)
            if (k.p[i] != k.fill) mc::fail("byte %zu of an allocation of %zu bytes has changed: %s", i, k.n, what.c_str());
}
static void get(Arena &x, Mem &m, size_t n, size_t align, const string &what, const Arena *other = nullptr) {
    unsigned char *p = (unsigned char *)Tiny_ArenaAlloc(&x.a, n, align);
    if (!p) mc::fail("no memory: %s", what.c_str());
    if ((uintptr_t)p % align) mc::fail("%p is not aligned to %zu: %s", (void *)p, align, what.c_str());
    bool in = !n;
    for (auto &l : m.live) in |= p >= (unsigned char *)l.first && p + n <= (unsigned char *)l.first + l.second.second;
    if (!in) mc::fail("an allocation of %zu bytes lies outside of the arena's memory: %s", n, what.c_str());
    for (const Arena *o : {(const Arena *)&x, other})
        if (o) for (auto &k : o->b) if (n && k.n && p < k.p + k.n && k.p < p + n) mc::fail("allocations of %zu and %zu bytes overlap: %s", k.n, n, what.c_str());
    unsigned char fill = (unsigned char)(x.b.size() * 37 + 11);
    memset(p, fill, n);
    x.b.push_back({p, n, align, fill});
    mc::noteTransitions(1);
}
static void reset(Arena &x, Mem &m, const string &what) {
    verify(x, what);
    Tiny_DestroyArena(&x.a);
    x.b.clear();
    Tiny_Context c = ctx(m);
    Tiny_InitArena(&x.a, c);
}
static const std::vector<std::pair<size_t, size_t>> OP = {{1, 1}, {8, 8}, {7, 4}, {0, 8}, {10, 1}, {24, 8}, {3, 2}, {2000, 8}, {4000, 16}, {4095, 1}, {4096, 8}, {4097, 8}, {9001, 1}, {100, 16}, {40, 64}, {5000, 256}, {4090, 32}};
static string opName(size_t k) { return k == OP.size() ? "destroy" : "(" + I((long long)OP[k].first) + ", " + I((long long)OP[k].second) + ")"; }
static const size_t OFFS[] = {0, 16, 32, 48};
static void sequence(uint64_t i, int n, int arenas) {
    mc::Digits d(i);
    Mem m[2];
    m[0].offset = m[1].offset = OFFS[d(4)];
    Arena x[2];
    Tiny_Context c[2] = {ctx(m[0]), ctx(m[1])};
    for (int k = 0; k < arenas; ++k) Tiny_InitArena(&x[k].a, c[k]);
    string what = "offset " + I((long long)m[0].offset);
    uint64_t h = m[0].offset;
    for (int k = 0; k < n; ++k) {
        size_t op = d(OP.size() + 1), w = arenas > 1 ? d(2) : 0;
        what += " " + (arenas > 1 ? I((long long)w) + ":" : "") + opName(op);
        if (op == OP.size()) { reset(x[w], m[w], what); if (!m[w].live.empty()) mc::fail("%zu blocks are still allocated: %s", m[w].live.size(), what.c_str()); }
        else get(x[w], m[w], OP[op].first, OP[op].second, what, arenas > 1 ? &x[1 - w] : nullptr);
        uint64_t s[2] = {h, op * 2 + w};
        mc::noteState(h = mc::hash(s, sizeof s));
    }
    for (int k = 0; k < arenas; ++k) {
        verify(x[k], what);
        Tiny_DestroyArena(&x[k].a);
        if (!m[k].live.empty()) mc::fail("%zu blocks are still allocated at the end: %s", m[k].live.size(), what.c_str());
    }
    mc::noteRun();
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        uint64_t no = OP.size() + 1;
        int n = mc::thorough ? 5 : 4;
        mc::family("sequences", mc::power(no, n) * 4, [n](uint64_t i) { sequence(i, n, 1); });
        mc::family("two-arenas", mc::power(no * 2, mc::thorough ? 4 : 3) * 2, [](uint64_t i) { sequence(i, mc::thorough ? 4 : 3, 2); });
        // Every fill level of a page followed by allocations which just fit, or just do not.
        mc::family("page-end", 4097 * 8, [](uint64_t i) {
            size_t used = i % 4097, align = (size_t)1 << (i / 4097);
            for (size_t off : {(size_t)16, (size_t)48})
                for (int rest = -20; rest <= 3; ++rest) {
                    long size = 4096 - (long)used + rest;
                    if (size < 0) continue;
                    Mem m;
                    m.offset = off;
                    Arena x;
                    Tiny_Context c = ctx(m);
                    Tiny_InitArena(&x.a, c);
                    string what = "page filled with " + I((long long)used) + " bytes, then " + I(size) + " aligned to " + I((long long)align) + ", then 5 and 0";
                    get(x, m, used, 1, what);
                    get(x, m, (size_t)size, align, what);
                    get(x, m, 5, align, what);
                    get(x, m, 0, 8, what);
                    verify(x, what);
                    Tiny_DestroyArena(&x.a);
                    if (!m.live.empty()) mc::fail("%zu blocks are still allocated at the end: %s", m.live.size(), what.c_str());
                    if (!mc::thorough && used % 64 > 2 && rest < -1 && used < 4000) rest = -2;
                }
            uint64_t s[2] = {used, align};
            mc::noteState(mc::hash(s, sizeof s));
            mc::noteRun();
        });
        // The same small allocation over and over, and growing ones.
        mc::family("many", 300 * 8 * 2, [](uint64_t i) {
            mc::Digits d(i);
            size_t size = d(300) + 1, align = (size_t)1 << d(8);
            bool grow = d(2);
            Mem m;
            Arena x;
            Tiny_Context c = ctx(m);
            Tiny_InitArena(&x.a, c);
            string what = "many of " + I((long long)size) + " aligned to " + I((long long)align) + (grow ? " and growing" : "");
            size_t total = 0;
            for (int k = 0; k < 120 && total < 60000; ++k) { size_t n = grow ? size + k * 41 : size; get(x, m, n, k % 3 ? align : 1, what); total += n; }
            verify(x, what);
            Tiny_DestroyArena(&x.a);
            if (!m.live.empty()) mc::fail("%zu blocks are still allocated at the end: %s", m.live.size(), what.c_str());
            uint64_t s[3] = {size, align, grow};
            mc::noteState(mc::hash(s, sizeof s));
            mc::noteRun();
        });
        mc::family("sizes", 20000, [](uint64_t i) {
            for (size_t align : {1, 8, 16, 64}) {
                Mem m;
                Arena x;
                Tiny_Context c = ctx(m);
                Tiny_InitArena(&x.a, c);
                string what = I((long long)i) + " bytes aligned to " + I((long long)align) + " first, between and twice";
                for (size_t n : {(size_t)i, (size_t)10, (size_t)i, (size_t)i, (size_t)1}) get(x, m, n, align, what);
                verify(x, what);
                Tiny_DestroyArena(&x.a);
                if (!m.live.empty()) mc::fail("%zu blocks are still allocated at the end: %s", m.live.size(), what.c_str());
            }
            mc::noteRun();
        });
    });
}
