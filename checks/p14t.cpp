// P14, on operating system threads: no two threads of a state touch the same memory unsynchronised,
// hence every schedule of operating system threads is equivalent to one of the stepwise schedules.
#include <pthread.h>
#include "roles.hpp"
extern "C" const char *__tsan_default_options() { return "exitcode=99:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0:symbolize=0"; }
using namespace gen;
using namespace roles;
static const int NR = 16;
struct Job { Tiny_State *s; int role, gc, rounds; string out; pthread_barrier_t *bar; };
static void one(Job &j) {
    Tiny_StateThread t;
    TLog log;
    log.role = j.role;
    Tiny_InitThread(&t, j.s);
    t.userdata = &log;
    Tiny_StartThread(&t);
    long n = 0;
    if (j.gc < 0) Tiny_Run(&t);
    else while (!Tiny_IsThreadDone(&t) && ++n < 20000) { t.maxNumObjects = j.gc; Tiny_ExecuteCycle(&t); }
    roles::observe(&t);
    Tiny_Value a = Tiny_NewInt(4);
    Tiny_Value r = Tiny_CallFunction(&t, Tiny_GetFunctionIndex(j.s, "inc"), &a, 1);
    df::showT(log.out, r);
    Tiny_DestroyThread(&t);
    for (auto n : log.nats) delete n;
    j.out = log.out;
}
static void *body(void *p) {
    Job &j = *(Job *)p;
    pthread_barrier_wait(j.bar);
    for (int k = 0; k < j.rounds; ++k) {
        string before = j.out;
        one(j);
        if (k && j.out != before) { j.out = "varies"; break; }
    }
    return nullptr;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        // every multiset of two roles on 4 operating system threads (two of each), under both collection modes
        mc::family("os-threads", NR * NR * 2, [](uint64_t i) {
            mc::Digits d(i);
            int r[2] = {(int)d(NR), (int)d(NR)}, gc = d(2) ? 0 : -1;
            static Tiny_State *s;
            if (!s) {
                s = Tiny_CreateState();
                roles::bind(s);
                if (Tiny_CompileString(s, "main", program().c_str()).type != TINY_COMPILE_SUCCESS) mc::fail("rejected");
            }
            pthread_barrier_t bar;
            pthread_barrier_init(&bar, nullptr, 4);
            Job j[4];
            pthread_t t[4];
            for (int k = 0; k < 4; ++k) { j[k] = Job{s, r[k % 2], gc, mc::thorough ? 20 : 3, "", &bar}; pthread_create(&t[k], nullptr, body, &j[k]); }
            for (int k = 0; k < 4; ++k) pthread_join(t[k], nullptr);
            for (int k = 0; k < 4; ++k) {
                Job a{s, r[k % 2], gc, 1, "", nullptr};
                one(a);
                mc::noteTrace();
                mc::noteRun();
                mc::noteTransitions(1);
                if (a.out != j[k].out) mc::fail("role %d behaves differently beside role %d on another thread %s", r[k % 2], r[1 - k % 2], df::differ(a.out, j[k].out).c_str());
            }
            mc::noteState(i + 1);
        }, [](uint64_t i) { mc::Digits d(i); int a = (int)d(NR), b = (int)d(NR); return bodies()[a] + " || " + bodies()[b]; });
    });
}
