// P14: threads of one state are isolated; stepping equals running.
#include <memory>
#include "roles.hpp"
#include "corpus.hpp"
using namespace gen;
using namespace roles;
static const int NR = 16;
static Tiny_State *S() {
    static Tiny_State *s;
    if (!s) {
        s = Tiny_CreateState();
        roles::bind(s);
        Tiny_CompileResult r = Tiny_CompileString(s, "main", program().c_str());
        if (r.type != TINY_COMPILE_SUCCESS) mc::fail("the program is rejected: %s", r.error.msg);
    }
    return s;
}
// A thread with everything that is done to it: created, started, run, inspected, destroyed.
struct Actor {
    int role, gc, phase = 0;
    long cycles = 0;
    Tiny_StateThread t;
    TLog log;
    bool up = false;
    Actor(int r, int g) : role(r), gc(g) {}
    ~Actor() { if (up) Tiny_DestroyThread(&t); for (auto n : log.nats) delete n; }
    bool done() const { return phase == 4; }
    void observe() {
        roles::observe(&t);
        log.out += " sp" + I(t.sp) + " fc" + I(t.fc);
    }
    bool step() {
        switch (phase) {
            case 0: Tiny_InitThread(&t, S()); t.userdata = &log; log.role = role; up = true; phase = 1; break;
            case 1: Tiny_StartThread(&t); phase = 2; break;
            case 2:
                if (gc >= 0) t.maxNumObjects = gc;
                Tiny_ExecuteCycle(&t);
                ++cycles;
                if (cycles > 20000) mc::fail("role %d does not end", role);
                if (Tiny_IsThreadDone(&t)) phase = 3;
                break;
            case 3: observe(); Tiny_DestroyThread(&t); up = false; phase = 4; break;
        }
        mc::noteTransitions(1);
        return phase < 4;
    }
};
struct Alone { string out; int steps; int from; };
// The thread run alone; `from` is the step at which it enters its role.
static const Alone &alone(int role, int gc) {
    static Alone memo[NR][2];
    Alone &m = memo[role][gc >= 0];
    if (!m.steps) {
        Actor a(role, gc);
        m.from = -1;
        while (!a.done()) {
            if (m.from < 0 && a.phase == 2 && a.t.fc > 0) m.from = m.steps;
            a.step();
            ++m.steps;
        }
        if (m.from < 0) m.from = 2;
        m.out = a.log.out;
    }
    return m;
}
static void check(const Actor &a, const string &sched) {
    const Alone &w = alone(a.role, a.gc);
    if (a.log.out != w.out) mc::fail("a thread in role %d behaves differently when interleaved %s\n--- schedule\n%s\n--- program\n%s", a.role, df::differ(w.out, a.log.out).c_str(), sched.c_str(), bodies()[a.role].c_str());
}
// Runs threads by blocks: (thread, number of steps), then everybody to the end.
static void schedule(std::vector<std::pair<int, int>> roleGc, const std::vector<std::pair<int, int>> &blocks) {
    std::vector<std::unique_ptr<Actor>> a;
    for (auto &r : roleGc) a.push_back(std::make_unique<Actor>(r.first, r.second));
    string sched;
    uint64_t h = 7;
    for (auto &b : blocks) {
        sched += I(b.first) + "x" + I(b.second) + " ";
        for (int k = 0; k < b.second && !a[b.first]->done(); ++k) a[b.first]->step();
        uint64_t key[6] = {h, (uint64_t)b.first, (uint64_t)a[b.first]->t.pc, (uint64_t)a[b.first]->t.sp, a[b.first]->log.out.size(), mc::hash(&roleGc[0], roleGc.size() * sizeof roleGc[0])};
        h = mc::hash(key, sizeof key);
        mc::noteState(h);
    }
    for (auto &x : a) while (!x->done()) x->step();
    mc::noteTrace();
    mc::noteRun();
    for (auto &x : a) check(*x, sched);
}
// Positions of the switches among the steps of two threads: thread 0 runs p0 steps, thread 1 p1, thread 0 p2, ...
static uint64_t pairCount(int n) { return (uint64_t)n * n; }
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        // all schedules of two short roles with up to 4 context switches (steps before entering the role are run first or not)
        static const int GC[2] = {-1, 0};
        mc::family("switches-2", NR * NR * 4, [](uint64_t i) {
            mc::Digits d(i);
            int r0 = (int)d(NR), r1 = (int)d(NR), g0 = GC[d(2)], g1 = GC[d(2)];
            int n0 = alone(r0, g0).steps, n1 = alone(r1, g1).steps;
            // everything of thread 1 at one point of thread 0, and one switch back in the middle
            for (int p = 0; p <= n0; ++p) schedule({{r0, g0}, {r1, g1}}, {{0, p}, {1, n1}});
            int f0 = alone(r0, g0).from, f1 = alone(r1, g1).from, s0 = mc::thorough ? 1 : 1 + (n0 - f0) / 25, s1 = mc::thorough ? 1 : 1 + (n1 - f1) / 25;
            for (int p = f0 - 1; p <= n0; p += s0)
                for (int q = f1 - 1; q <= n1; q += s1) schedule({{r0, g0}, {r1, g1}}, {{0, p}, {1, q}, {0, n0}});
        }, [](uint64_t i) { mc::Digits d(i); int a = (int)d(NR), b = (int)d(NR); return bodies()[a] + " || " + bodies()[b]; });
        mc::family("switches-4", SHORT * SHORT * 2, [](uint64_t i) {
            mc::Digits d(i);
            int r0 = (int)d(SHORT), r1 = (int)d(SHORT), g = GC[d(2)];
            int n0 = alone(r0, g).steps, n1 = alone(r1, g).steps, f0 = alone(r0, g).from, f1 = alone(r1, g).from;
            int m0 = n0 - f0, m1 = n1 - f1, lim = mc::thorough ? 24 : 13;
            if (m0 > lim) m0 = lim;
            if (m1 > lim) m1 = lim;
            for (int a = 0; a <= m0; ++a) for (int b = 1; b <= m1; ++b) for (int c = 1; a + c <= m0; ++c) for (int e = 1; b + e <= m1; ++e)
                schedule({{r0, g}, {r1, g}}, {{0, f0 + a}, {1, f1 + b}, {0, c}, {1, e}, {0, n0}});
        });
        // every interleaving of the last steps (inside the role, the end, inspection, destruction)
        mc::family("all-interleavings", SHORT * SHORT * 2 * 4, [](uint64_t i) {
            mc::Digits d(i);
            int r0 = (int)d(SHORT), r1 = (int)d(SHORT), g = GC[d(2)], shift = (int)d(4);
            int w = mc::thorough ? 8 : 6;
            const Alone &A = alone(r0, g), &B = alone(r1, g);
            // the window begins `shift` windows of steps after entering the role (or ends at the very end)
            int b0 = shift == 3 ? A.steps - w : A.from + shift * w / 2, b1 = shift == 3 ? B.steps - w : B.from + shift * w / 2;
            for (uint64_t m = 0; m < 1ull << (2 * w); ++m) {
                if (__builtin_popcountll(m) != w) continue;
                std::vector<std::pair<int, int>> bl{{0, b0}, {1, b1}};
                for (int k = 0; k < 2 * w; ++k) {
                    int who = (int)(m >> k & 1);
                    if (k && bl.back().first == who) ++bl.back().second; else bl.push_back({who, 1});
                }
                schedule({{r0, g}, {r1, g}}, bl);
            }
        });
        // three threads, round robin with every quantum and every order
        mc::family("three", NR * NR * NR, [](uint64_t i) {
            mc::Digits d(i);
            int r[3] = {(int)d(NR), (int)d(NR), (int)d(NR)};
            for (int q : {1, 2, 3, 5, 8}) for (int g = 0; g < 2; ++g) {
                if (!mc::thorough && (q == 3 || q == 8)) continue;
                std::vector<std::pair<int, int>> bl;
                for (int k = 0; k < 400 / q; ++k) for (int t = 0; t < 3; ++t) bl.push_back({t, q + (t == 1 && g)});
                schedule({{r[0], GC[g]}, {r[1], -1}, {r[2], GC[g]}}, bl);
            }
        });
        // many threads, one step each in turn, in the given rotation
        mc::family("many", 200, [](uint64_t i) {
            std::vector<std::pair<int, int>> rg, bl;
            int n = 2 + (int)i % 40;
            for (int k = 0; k < n; ++k) rg.push_back({(int)(k * 7 + i) % NR, (int)(k + i) % 3 ? -1 : 0});
            for (int s = 0; s < 300; ++s) for (int k = 0; k < n; ++k) bl.push_back({(int)((k * (i / 40 + 1) + s) % n), 1});
            schedule(rg, bl);
        });
        // stepping equals running: k steps, then Tiny_Run; corpus programs
        static const auto &U = corpus::units();
        mc::family("step-then-run", U.size() * 400, [](uint64_t i) {
            auto &u = U[i % U.size()];
            int k = (int)(i / U.size());
            auto bind = df::stdOpt().binder;
            static std::map<string, std::pair<string, long>> memo;
            if (!memo.count(u)) {
                df::Impl X(bind);
                if (!X.compile(u)) mc::fail("rejected: %s", X.err.c_str());
                X.start();
                if (!X.run(200000)) mc::fail("does not end");
                memo[u] = {X.log.out + " sp" + I(X.t.sp) + " fc" + I(X.t.fc), X.cycles};
            }
            if (k > memo[u].second) return;
            df::Impl X(bind);
            X.compile(u);
            X.start();
            for (int j = 0; j < k; ++j) if (!Tiny_ExecuteCycle(&X.t)) break;
            Tiny_Run(&X.t);
            mc::noteTrace();
            mc::noteRun();
            mc::noteState(mc::hash(u) + k);
            mc::noteTransitions(k);
            string got = X.log.out + " sp" + I(X.t.sp) + " fc" + I(X.t.fc);
            if (!Tiny_IsThreadDone(&X.t)) mc::fail("Tiny_Run returns before the end after %d steps\n%s", k, u.c_str());
            if (got != memo[u].first) mc::fail("running after %d steps differs %s\n%s", k, df::differ(memo[u].first, got).c_str(), u.c_str());
            if (Tiny_ExecuteCycle(&X.t)) mc::fail("a finished thread executes another cycle\n%s", u.c_str());
        });
    });
}
