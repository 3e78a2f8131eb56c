// P32: the server example's list under every schedule.  list.c is compiled with the hooks of the thread
// sanitizer, which here lead into a controlled scheduler: before every operation on a mutex (and, up to a
// bound, before every access to memory) any other thread may go on.  Accesses which no mutex orders, uses
// of freed memory, deadlocks and histories which no queue could produce are reported.
#include <ucontext.h>
#include <unordered_map>
#include "common.hpp"
#include "gen.hpp"
extern "C" {
#include "list.h"
}
using namespace gen;
struct Block { size_t size; bool freed; };
static std::map<uintptr_t, Block> blocks;
static const int MAXT = 4;
typedef std::array<uint32_t, MAXT + 1> Clock;         // index 0: the main thread
struct Cell { uint32_t wt = 0, wc = 0; Clock r{}; };
static std::unordered_map<uintptr_t, Cell> cells;
struct Mutex { int owner = -1; Clock c{}; bool live = false; };
static std::map<void *, Mutex> mutexes;
struct Cond { std::vector<int> waiting; };
static std::map<void *, Cond> conds;
struct Thread { ucontext_t ctx; std::vector<char> stack; std::function<void()> body; bool done = true; void *blockedOn = nullptr; bool asleep = false; Clock c{}; };
static Thread T[MAXT + 1];
static int cur = 0, nThreads = 0;
static ucontext_t mainCtx;
static string story, problem;
// Choices made so far and where to go on.
struct Choice { int pick, n; };
static std::vector<Choice> path;
static size_t depth;
static int preemptions, bound;
static bool everyAccess, active;
static uint64_t steps;
struct Stop {};
static void bad(const char *f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (problem.empty()) problem = b; }
static int choose(int n) {
    if (n == 1) return 0;
    if (depth == path.size()) path.push_back({0, n});
    if (path[depth].n != n) { bad("the schedule cannot be repeated"); return 0; }
    return path[depth++].pick;
}
static bool canRun(int t) { return !T[t].done && !T[t].asleep && (!T[t].blockedOn || mutexes[T[t].blockedOn].owner < 0); }
static void to(int t) { int from = cur; cur = t; if (t != from) swapcontext(from ? &T[from].ctx : &mainCtx, t ? &T[t].ctx : &mainCtx); }
// Any runnable thread may be next; leaving one which could go on costs a preemption.
static void point() {
    if (!active || !cur) return;
    ++steps;
    std::vector<int> c;
    bool self = canRun(cur);
    if (self) c.push_back(cur);
    if (!self || preemptions < bound) for (int t = 1; t <= nThreads; ++t) if (t != cur && canRun(t)) c.push_back(t);
    if (c.empty()) {
        bool all = true;
        for (int t = 1; t <= nThreads; ++t) all = all && (T[t].done);
        if (!all) bad("deadlock: no thread can go on");
        to(0);
        return;
    }
    int t = c[choose((int)c.size())];
    if (self && t != cur) ++preemptions;
    to(t);
}
static void join(Clock &a, const Clock &b) { for (int k = 0; k <= MAXT; ++k) if (b[k] > a[k]) a[k] = b[k]; }
static void access(void *p, size_t n, bool write) {
    if (!active) return;
    if (everyAccess) point();
    uintptr_t a = (uintptr_t)p;
    auto it = blocks.upper_bound(a);
    if (it != blocks.begin()) {
        --it;
        if (a < it->first + it->second.size + 16) {
            if (it->second.freed && a < it->first + it->second.size) bad("memory is used after it was freed");
            else if (!it->second.freed && a < it->first + it->second.size && a + n > it->first + it->second.size) bad("memory is used beyond its end");
        }
    }
    for (size_t k = 0; k < n; ++k) {
        Cell &c = cells[a + k];
        Clock &me = T[cur].c;
        if (c.wt != (uint32_t)cur && c.wc > me[c.wt]) bad("two threads access the same memory at the same time and one writes it");
        if (write) {
            for (int t = 0; t <= MAXT; ++t) if (t != cur && c.r[t] > me[t]) bad("two threads access the same memory at the same time and one writes it");
            c.wt = (uint32_t)cur; c.wc = me[cur];
        } else c.r[cur] = me[cur];
    }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void *ck_malloc(size_t n) { if (everyAccess) point(); char *p = (char *)calloc(1, n + 16); memset(p, 0xCD, n + 16); blocks[(uintptr_t)p] = {n, false}; return p; }
void *ck_calloc(size_t a, size_t b) { void *p = ck_malloc(a * b); memset(p, 0, a * b); return p; }
void ck_free(void *p) {
    if (!p) return;
    if (everyAccess) point();
    auto it = blocks.find((uintptr_t)p);
    if (it == blocks.end() || it->second.freed) { bad("memory is freed twice"); return; }
    access(p, it->second.size, true);
    it->second.freed = true;
    memset(p, 0xEF, it->second.size);
}
void *ck_realloc(void *p, size_t n) { void *q = ck_malloc(n); if (p) { size_t o = blocks[(uintptr_t)p].size; memcpy(q, p, o < n ? o : n); ck_free(p); } return q; }
void *ck_memcpy(void *d, const void *s, size_t n) { if (n) { access((void *)s, n, false); access(d, n, true); } return memcpy(d, s, n); }
void *ck_memmove(void *d, const void *s, size_t n) { if (n) { access((void *)s, n, false); access(d, n, true); } return memmove(d, s, n); }
int mtx_init(mtx_t *m, int) { mutexes[m] = Mutex{}; mutexes[m].live = true; return thrd_success; }
void mtx_destroy(mtx_t *m) { if (mutexes[m].owner >= 0) bad("a locked mutex is destroyed"); mutexes[m].live = false; }
static void acquire(mtx_t *m) {
    Mutex &x = mutexes[m];
    if (!x.live) bad("a mutex is used which does not exist");
    while (x.owner >= 0) {
        if (x.owner == cur) { bad("a thread locks a mutex it holds"); return; }
        T[cur].blockedOn = m;
        if (!cur) { bad("a mutex is still locked"); return; }
        point();
        if (!active) return;
    }
    T[cur].blockedOn = nullptr;
    x.owner = cur;
    join(T[cur].c, x.c);
}
int mtx_lock(mtx_t *m) { point(); acquire(m); return thrd_success; }
int mtx_trylock(mtx_t *m) { point(); if (mutexes[m].owner >= 0) return thrd_busy; acquire(m); return thrd_success; }
int mtx_unlock(mtx_t *m) {
    Mutex &x = mutexes[m];
    if (x.owner != cur) bad("a thread unlocks a mutex it does not hold");
    x.owner = -1;
    x.c = T[cur].c;
    ++T[cur].c[cur];
    if (everyAccess) point();
    return thrd_success;
}
int cnd_init(cnd_t *c) { conds[c] = Cond{}; return thrd_success; }
void cnd_destroy(cnd_t *) {}
int cnd_wait(cnd_t *c, mtx_t *m) { conds[c].waiting.push_back(cur); T[cur].asleep = true; Mutex &x = mutexes[m]; x.owner = -1; x.c = T[cur].c; ++T[cur].c[cur]; point(); if (active) acquire(m); return thrd_success; }
int cnd_signal(cnd_t *c) { auto &w = conds[c].waiting; if (!w.empty()) { T[w[0]].asleep = false; w.erase(w.begin()); } point(); return thrd_success; }
int cnd_broadcast(cnd_t *c) { for (int t : conds[c].waiting) T[t].asleep = false; conds[c].waiting.clear(); point(); return thrd_success; }
}
// ---------------------------------------------------------------- histories
struct Op { bool push; int value; bool ok = false; long from = 0, until = 0; };
static bool linear(std::vector<Op> &ops, uint32_t used, std::vector<int> &q, size_t head) {
    if (used == (1u << ops.size()) - 1) return true;
    long first = LONG_MAX;
    for (size_t k = 0; k < ops.size(); ++k) if (!(used >> k & 1)) first = std::min(first, ops[k].until);
    for (size_t k = 0; k < ops.size(); ++k) {
        if (used >> k & 1 || ops[k].from > first) continue;
        Op &o = ops[k];
        bool r = false;
        if (o.push) { q.push_back(o.value); r = linear(ops, used | 1u << k, q, head); q.pop_back(); }
        else if (o.ok) r = head < q.size() && q[head] == o.value && linear(ops, used | 1u << k, q, head + 1);
        else r = head == q.size() && linear(ops, used | 1u << k, q, head);
        if (r) return true;
    }
    return false;
}
static List L;
static char BUF[MAXT + 1][512];      // what the threads push from and pop into
static void entry(int t) { T[t].body(); T[t].done = true; point(); to(0); }
// All schedules of the threads' operations ('u': push, 'o': pop) on a list which holds `initial` items.
static uint64_t explore(const std::vector<string> &prog, int initial, size_t item, int maxPreempt, bool access) {
    path.clear();
    uint64_t runs = 0;
    bound = maxPreempt; everyAccess = access;
    for (;;) {
        depth = 0; preemptions = 0; problem.clear(); steps = 0;
        for (auto &b : blocks) free((void *)b.first);
        blocks.clear(); cells.clear(); mutexes.clear(); conds.clear();
        cur = 0; active = true;
        for (int t = 0; t <= MAXT; ++t) { T[t].c = Clock{}; T[t].c[t] = 1; T[t].done = true; T[t].blockedOn = nullptr; T[t].asleep = false; }
        std::vector<Op> ops;
        long clock = 0;
        auto encode = [&](int v, char *b) { for (size_t k = 0; k < item; ++k) b[k] = (char)(v * 7 + k * 13); };
        auto decode = [&](const char *b) { char x[512]; for (int v = 0; v < 50; ++v) { encode(v, x); if (!memcmp(x, b, item)) return v; } return -1; };
        memset(&L, 0x5A, sizeof L);
        InitList(&L, item);
        for (int k = 0; k < initial; ++k) { char *b = BUF[0]; encode(30 + k, b); ListPushBack(&L, b); ops.push_back({true, 30 + k, true, ++clock, clock}); }
        nThreads = (int)prog.size();
        for (int t = 1; t <= nThreads; ++t) {
            T[t].c = T[0].c; T[t].c[t] = 1; T[t].c[0] = T[0].c[0];
            T[t].done = false;
            T[t].body = [&, t] {
                int n = 0;
                for (char o : prog[(size_t)t - 1]) {
                    if (!active) return;
                    point();
                    ++n;
                    size_t me = ops.size();
                    ops.push_back({o == 'u', 0, false, ++clock, LONG_MAX});
                    char *b = BUF[t]; memset(b, 'z', item);
                    if (o == 'u') { ops[me].value = t * 5 + n; encode(ops[me].value, b); ListPushBack(&L, b); ops[me].ok = true; }
                    else { ops[me].ok = ListPopFront(&L, b); ops[me].value = ops[me].ok ? decode(b) : -1; if (!ops[me].ok) for (size_t k = 0; k < item; ++k) if (b[k] != 'z') bad("a failing pop writes its result"); }
                    ops[me].until = ++clock;
                }
            };
            T[t].stack.resize(1 << 16);
            getcontext(&T[t].ctx);
            T[t].ctx.uc_stack.ss_sp = T[t].stack.data(); T[t].ctx.uc_stack.ss_size = T[t].stack.size(); T[t].ctx.uc_link = nullptr;
            makecontext(&T[t].ctx, (void (*)())entry, 1, t);
        }
        ++T[0].c[0];
        // the first thread to run is a choice too
        to(1 + choose(nThreads));
        bool all = true;
        for (int t = 1; t <= nThreads; ++t) all = all && T[t].done;
        if (!all && problem.empty()) bad("not every thread came to its end");
        if (problem.empty()) {
            for (int t = 1; t <= nThreads; ++t) join(T[0].c, T[t].c);
            cur = 0;
            char *b = BUF[0];
            for (int k = 0; k < 30; ++k) { bool ok = ListPopFront(&L, b); ops.push_back({false, ok ? decode(b) : -1, ok, ++clock, clock}); if (!ok) break; if (k % 2 && runs % 2) break; }
            std::vector<int> q;
            if (!linear(ops, 0, q, 0)) bad("no order of the operations gives these results in a queue");
            bool rest = ops.back().ok;
            (void)rest;
            DestroyList(&L);
            for (auto &x : blocks) if (!x.second.freed) bad("destroying the list does not return all its memory");
        }
        active = false;
        ++runs;
        mc::noteTransitions(steps);
        if (!problem.empty()) {
            string s;
            for (auto &o : ops) s += string(o.push ? "push " : "pop ") + I(o.value) + (o.push || o.ok ? "" : " (fails)") + " [" + I(o.from) + ".." + (o.until == LONG_MAX ? "" : I(o.until)) + "]; ";
            string c;
            for (size_t k = 0; k < depth; ++k) c += I(path[k].pick) + " ";
            mc::fail("%s\noperations: %s\nchoices: %s", problem.c_str(), s.c_str(), c.c_str());
        }
        uint64_t h = 1469598103934665603ull;
        for (auto &o : ops) h = (h ^ (uint64_t)(o.from * 131 + o.until * 7 + o.value + o.ok)) * 1099511628211ull;
        mc::noteState(h);
        mc::noteTrace();
        path.resize(depth);
        while (!path.empty() && path.back().pick + 1 >= path.back().n) path.pop_back();
        if (path.empty()) break;
        ++path.back().pick;
    }
    mc::noteRun();
    return runs;
}
static std::vector<string> scripts(int lo, int hi) { std::vector<string> v; for (int n = lo; n <= hi; ++n) for (int m = 0; m < 1 << n; ++m) { string s; for (int k = 0; k < n; ++k) s += m >> k & 1 ? 'o' : 'u'; v.push_back(s); } return v; }
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        bool th = mc::thorough;
        static std::vector<string> two = scripts(1, th ? 4 : 3), three = scripts(1, th ? 3 : 2), fours = scripts(1, th ? 2 : 1), one = scripts(1, 10);
        auto say = [](std::vector<string> p) { return "threads " + join(p, " | "); };
        mc::family("two-threads", two.size() * two.size() * 3, [](uint64_t i) { size_t n = two.size(); explore({two[i % n], two[i / n % n]}, (int)(i / n / n), 8, 1000, false); }, [=](uint64_t i) { size_t n = two.size(); return say({two[i % n], two[i / n % n]}); });
        mc::family("three-threads", three.size() * three.size() * three.size() * 3, [](uint64_t i) { size_t n = three.size(); explore({three[i % n], three[i / n % n], three[i / n / n % n]}, (int)(i / n / n / n), 8, three[i % n].size() + three[i / n % n].size() + three[i / n / n % n].size() > 6 ? 4 : mc::thorough ? 6 : 4, false); });
        mc::family("four-threads", fours.size() * fours.size() * fours.size() * fours.size() * 2, [](uint64_t i) { size_t n = fours.size(); explore({fours[i % n], fours[i / n % n], fours[i / n / n % n], fours[i / n / n / n % n]}, (int)(i / n / n / n / n), 8, 3, false); });
        mc::family("every-access", three.size() * three.size() * 3, [](uint64_t i) { size_t n = three.size(); explore({three[i % n], three[i / n % n]}, (int)(i / n / n), 8, mc::thorough ? 3 : 2, true); });
        mc::family("every-access-3", 8 * 3, [](uint64_t i) { explore({i & 1 ? "u" : "o", i & 2 ? "u" : "o", i & 4 ? "u" : "o"}, (int)(i / 8), 8, 2, true); });
        mc::family("sequences", one.size() * 3, [](uint64_t i) { explore({one[i % one.size()]}, (int)(i / one.size()), i % 2 ? 3 : 24, 0, false); });
        mc::family("item-sizes", 300 * 2, [](uint64_t i) { explore({"uuouoo", "uo"}, (int)(i % 2), (size_t)(i / 2 + 1), 1, false); });
    });
}
