// P41: exiting, random numbers and the time.
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <filesystem>
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
using std::string;
// The host's clock, as the code under test sees it when virtualTime is set.
static bool virtualTime = false;
static long long nowIs = 0, asked = 0;
extern "C" time_t time(time_t *t) noexcept {
    time_t r;
    if (virtualTime) { ++asked; r = (time_t)nowIs; }
    else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    if (t) *t = r;
    return r;
}
static string dirOf;
static void bindAll(Tiny_State *s) { df::stdOpt().binder(s); Tiny_BindStandardIO(s); }
// ---------------------------------------------------------------- exit
struct End { bool exited; int status; string out, file; };
static string slurp(int fd) {
    struct stat st;
    fstat(fd, &st);
    string s((size_t)st.st_size, 0);
    if (st.st_size && pread(fd, &s[0], s.size(), 0) != (ssize_t)s.size()) mc::fail("cannot read the output");
    return s;
}
// Runs the program in a process of its own, as a host does which only runs it; 77 is given back if the host goes on after it.
static End ending(const string &src, int status, int how) {
    End e;
    string path = dirOf + "/" + I(getpid());
    int fd = memfd_create("out", 0);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        virtualTime = false;
        dup2(fd, 1);
        setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
        df::Impl m(bindAll);
        if (!m.compile(src)) { printf("rejected: %s", m.err.c_str()); fflush(stdout); _exit(1); }
        m.start();
        m.t.userdata = &m.log;
        if (how == 1) { while (Tiny_ExecuteCycle(&m.t)) m.t.maxNumObjects = 0; }
        else if (how == 2) {
            Tiny_Value a = Tiny_NewInt(status);
            Tiny_CallFunction(&m.t, Tiny_GetFunctionIndex(m.s, "leave"), &a, 1);
        } else Tiny_Run(&m.t);
        printf("[went on]");
        fflush(stdout);
        _exit(status == 77 ? 78 : 77);
    }
    int st;
    if (waitpid(pid, &st, 0) != pid) mc::fail("no process");
    e.exited = WIFEXITED(st);
    e.status = e.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    e.out = slurp(fd);
    close(fd);
    if (FILE *f = fopen(path.c_str(), "rb")) {
        char b[4096];
        for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) e.file.append(b, n);
        fclose(f);
        unlink(path.c_str());
    }
    mc::noteTrace(); mc::noteRun();
    mc::noteTransitions(1);
    return e;
}
static void expect(const string &src, int status, const string &out, const string &file, int how = 0) {
    End e = ending(src, status, how);
    if (!e.exited || e.status != status) mc::fail("the process %s %d instead of ending with status %d, and printed %s\n--- program\n%s", e.exited ? "ended with status" : "was killed by signal", e.status, status, df::clip(e.out).c_str(), src.c_str());
    if (e.out != out) mc::fail("printed %s instead of %s\n--- program\n%s", df::clip(e.out).c_str(), df::clip(out).c_str(), src.c_str());
    if (e.file != file) mc::fail("the file has %s instead of %s\n--- program\n%s", df::clip(e.file).c_str(), df::clip(file).c_str(), src.c_str());
    uint64_t h[3] = {(uint64_t)status, mc::hash(src), (uint64_t)how};
    mc::noteState(mc::hash(h, sizeof h));
}
// Where exit is called; N is the status, @ the call.
static const std::vector<string> AT = {
    "printf(\"a\") @ printf(\"b\")",
    "n := N printf(\"a\") exit(n) printf(\"b\")",
    "func f(n: int) { printf(\"a\") exit(n) printf(\"b\") } f(N) printf(\"c\")",
    "func f(n: int, s: int): int { if n == 0 { printf(\"a\") exit(s) } return f(n - 1, s) + 1 } printf(\"%i\", f(40, N))",
    "for i := 0; i < 5; i += 1 { printf(\"a\") if i == 0 { @ } }",
    "while true { printf(\"a\") @ }",
    "func f(n: int): int { printf(\"a\") exit(n) return 1 } printf(\"%i\", 1 + f(N) * 2)",
    "func f(n: int): int { printf(\"a\") exit(n) return 1 } call_function(get_function_index(\"f\"), N) printf(\"b\")",
    "if 1 == 1 { printf(\"a\") @ } else { exit(1) }",
    "struct P { v: any } p := new P{new P{hs(\"x\")}} d := dict(\"k\", p, \"l\", mknat()) s := strcat(\"h\", \"i\") printf(\"a\") @ printf(\"b\")",
    "func leave(n: int) { printf(\"a\") exit(n) printf(\"b\") } leave(N) printf(\"c\")",
    "func f(): bool { printf(\"a\") @ return true } if 1 == 1 && f() { printf(\"b\") }",
    "printf(\"a\") exit(N) exit(3)",
    "printf(\"a\") x := cast(N, any) exit(cast(x, int))",
    "struct P { a: int b: int } func f(n: int): int { printf(\"a\") exit(n) return 1 } p := new P{1, f(N)} printf(\"b\")",
    "func f(n: int): int { printf(\"a\") exit(n) return 1 } while f(N) == 1 { printf(\"b\") }",
};
static string at(size_t k, int status) { string s = sub(AT[k], "@", "exit(N)"), o; for (size_t i = 0; i < s.size(); ++i) { bool lone = s[i] == 'N' && !isalnum((unsigned char)s[i + 1]) && (!i || !isalnum((unsigned char)s[i - 1])); o += lone ? I(status) : string(1, s[i]); } return o; }
// What is done before and after.
struct Op { const char *text, *out, *file; bool opens, closes; };
static const Op OPS[] = {{"printf(\"%i,\", 12)", "12,", "", false, false}, {"printf(\"x\\n\")", "x\n", "", false, false}, {"f = fopen(name, \"w\")", "", "", true, false}, {"fwrite(f, \"data\")", "", "data", false, false},
                         {"fclose(f)", "", "", false, true}, {"write_file(name, \"whole\")", "", "", false, false}, {"s = strcat(s, \"y\")", "", "", false, false}, {"printf(big)", "", "", false, false}, {"fwrite(f, big)", "", "", false, false}};
static const int NOP = sizeof OPS / sizeof *OPS;
static void outputs(const std::vector<int> &before, const std::vector<int> &after, int status, size_t wrap) {
    string big(5000, 'b'), out, file, body, rest;
    bool open = false;
    for (int k : before) {
        if (k == 2 && open) { mc::noteSkip(); return; }
        if ((k == 3 || k == 4 || k == 8) && !open) { mc::noteSkip(); return; }
        if (k == 5 && open) { mc::noteSkip(); return; }
        body += string(OPS[k].text) + " ";
        out += k == 7 ? big : OPS[k].out;
        if (k == 2) { open = true; file.clear(); } else if (k == 4) open = false;
        else if (k == 5) file = "whole";
        else file += k == 8 ? big : OPS[k].file;
    }
    for (int k : after) rest += string(OPS[k].text) + " ";
    string call = "exit(" + I(status) + ")";
    string all = body + call + " " + rest;
    string pre = "name := \"" + dirOf + "/" + I(getpid()) + "\" big := \"" + big + "\" s := \"s\" f: file = fopen(\"/dev/null\", \"r\")\n";
    if (wrap == 1) all = "func go() { " + all + " } go() " + rest;
    if (wrap == 2) all = body + "func go(n: int): int { " + call + " return n } x := go(4) " + rest;
    expect(pre + all, status, out, file);
}
// ---------------------------------------------------------------- random numbers
static Tiny_Value callIt(df::Impl &m, const char *f, const std::vector<Tiny_Value> &a) { return Tiny_CallFunction(&m.t, Tiny_GetFunctionIndex(m.s, f), a.data(), (int)a.size()); }
static df::Impl *dice() {
    static df::Impl *m = nullptr;
    if (!m) {
        m = new df::Impl(bindAll);
        if (!m->compile("use array(\"any\") as array_any func seed(n: int) { srand(n) } func draw(): int { return rand() } func other(n: int): int { s := strcat(\"a\", ntos(n)) d := dict(s, n) a := array_any(s, d) return strlen(s) + time() * 0 }")) mc::fail("rejected: %s", m->err.c_str());
        m->start();
        Tiny_Run(&m->t);
    }
    return m;
}
static long long number(Tiny_Value v) { if (v.type != TINY_VAL_INT) mc::fail("rand() gives no integer"); return Tiny_ToInt(v); }
static const long long SEEDS[] = {1, 2, 3, 42, 255, 256, 257, 65535, 65536, 65537, 16777216, 2147483647};
static const int NSEED = sizeof SEEDS / sizeof *SEEDS;
// The numbers a seed gives, when nothing else is done.
static const std::vector<long long> &drawn(long long seed) {
    static std::map<long long, std::vector<long long>> M;
    auto &v = M[seed];
    if (v.empty()) {
        callIt(*dice(), "seed", {Tiny_NewInt(seed)});
        for (int k = 0; k < 64; ++k) v.push_back(number(callIt(*dice(), "draw", {})));
    }
    return v;
}
// Operations: 0-2 seed, 3 draw, 4 something else in the script, 5 a collection, 6 draw on another thread, 7 compile something, 8 a program with a loop of draws
static void history(const std::vector<int> &q, uint64_t seeds) {
    long long S[3] = {SEEDS[seeds % NSEED], SEEDS[seeds / NSEED % NSEED], SEEDS[(seeds * 5 + 7) % NSEED]};
    for (long long s : S) drawn(s);
    df::Impl m(bindAll);
    if (!m.compile("use array(\"any\") as array_any func loop(n: int): int { x := 0 for i := 0; i < n; i += 1 { x = rand() } return x } func seed(n: int) { srand(n) } func draw(): int { x := rand() y := x return y } func other(n: int): int { s := strcat(\"a\", ntos(n)) d := dict(s, n) a := array_any(s, d, n) return array_any_len(a) + strlen(s) }")) mc::fail("rejected: %s", m.err.c_str());
    m.start();
    Tiny_Run(&m.t);
    Tiny_StateThread two;
    Tiny_InitThread(&two, m.s);
    Tiny_StartThread(&two);
    Tiny_Run(&two);
    long long seed = S[0];
    callIt(m, "seed", {Tiny_NewInt(seed)});
    size_t n = 0;
    string shown = "seed " + I(seed);
    auto is = [&](long long got) {
        if (got < 0) mc::fail("rand() gives %lld after %s", got, shown.c_str());
        if (got != drawn(seed)[n]) mc::fail("number %zu is %lld instead of %lld after %s", n + 1, got, drawn(seed)[n], shown.c_str());
        ++n;
    };
    // drawn() has been called for all of them, so that nothing else seeds
    for (int k : q) {
        shown += ", operation " + I(k);
        if (k < 3) { seed = S[k]; n = 0; callIt(m, "seed", {Tiny_NewInt(seed)}); }
        else if (k == 3) is(number(callIt(m, "draw", {})));
        else if (k == 4) callIt(m, "other", {Tiny_NewInt(7)});
        else if (k == 5) { m.t.maxNumObjects = 0; callIt(m, "other", {Tiny_NewInt(8)}); }
        else if (k == 6) is(number(Tiny_CallFunction(&two, Tiny_GetFunctionIndex(m.s, "draw"), nullptr, 0)));
        else if (k == 7) { if (!m.compile("x" + I((long)n) + I((long)shown.size()) + " := 1 + 2")) mc::fail("rejected: %s", m.err.c_str()); Tiny_DestroyThread(&m.t); m.init(); m.start(); Tiny_Run(&m.t); Tiny_DestroyThread(&two); Tiny_InitThread(&two, m.s); Tiny_StartThread(&two); Tiny_Run(&two); }
        else { n += 2; is(number(callIt(m, "loop", {Tiny_NewInt(3)}))); }
        mc::noteState(mc::hash(shown));
        mc::noteTransitions(1);
    }
    for (int k = 0; k < 3; ++k) is(number(callIt(m, "draw", {})));
    Tiny_DestroyThread(&two);
    mc::noteTrace();
}
// ---------------------------------------------------------------- the time
static void clocks(long long v) {
    static df::Impl *m = nullptr;
    if (!m) {
        m = new df::Impl(bindAll);
        if (!m->compile("func now(): int { return time() } func later(n: int): bool { return time() + n > time() } func same(): bool { return time() == time() }")) mc::fail("rejected: %s", m->err.c_str());
        m->start();
        Tiny_Run(&m->t);
    }
    struct timespec a, b;
    clock_gettime(CLOCK_REALTIME, &a);
    virtualTime = true;
    nowIs = v;
    asked = 0;
    Tiny_Value r = callIt(*m, "now", {}), l = callIt(*m, "later", {Tiny_NewInt(1)}), s = callIt(*m, "same", {});
    virtualTime = false;
    clock_gettime(CLOCK_REALTIME, &b);
    long long got = number(r);
    mc::noteTrace();
    mc::noteState((uint64_t)v);
    mc::noteTransitions(3);
    if (!asked) {                     // the time does not come from time()
        if (got < a.tv_sec || got > b.tv_sec) mc::fail("time() gives %lld between %lld and %lld", got, (long long)a.tv_sec, (long long)b.tv_sec);
        return;
    }
    if (got != v) mc::fail("time() gives %lld when it is %lld", got, v);
    if (!Tiny_ToBool(l) || !Tiny_ToBool(s)) mc::fail("times are not compared as they are at %lld", v);
}
int main(int argc, char **argv) {
    char tmpl[] = "/tmp/p41XXXXXX";
    if (!mkdtemp(tmpl)) return 1;
    dirOf = tmpl;
    pid_t self = getpid();
    int rc = mc::drive(argc, argv, [] {
        bool th = mc::thorough;
        mc::family("statuses", 256 * AT.size(), [](uint64_t i) { int st = (int)(i % 256); expect(at(i / 256, st), st, "a", ""); },
                   [](uint64_t i) { return at(i / 256, (int)(i % 256)); });
        mc::family("runs", 16 * AT.size() * 3, [](uint64_t i) {
            static const int ST[] = {0, 1, 2, 7, 42, 63, 64, 99, 100, 126, 127, 128, 130, 200, 254, 255};
            int st = ST[i % 16], how = (int)(i / 16 / AT.size());
            size_t k = i / 16 % AT.size();
            if (how == 2 && AT[k].find("leave") == string::npos) return;
            expect(at(k, st), st, "a", "", how);
        });
        uint64_t nb = mc::seqCount(NOP, th ? 4 : 3);
        mc::family("output", nb * 3 * 3, [nb](uint64_t i) {
            static const std::vector<std::vector<int>> AFTER = {{}, {0, 6}, {1}};
            outputs(mc::seqAt(NOP, i % nb), AFTER[i / nb % 3], (int)(i % 251), i / nb / 3);
        });
        int k = th ? 6 : 4;
        mc::family("random", mc::power(9, k) * NSEED, [k](uint64_t i) {
            uint64_t seeds = i % NSEED * 13 + 1;
            std::vector<int> q;
            i /= NSEED;
            for (int j = 0; j < k; ++j, i /= 9) q.push_back((int)(i % 9));
            history(q, seeds);
        });
        // different seeds give different numbers, and the same seed the same
        mc::family("seeds", 1, [th](uint64_t) {
            std::map<std::vector<long long>, long long> seen;
            std::vector<long long> V;
            for (long long s = 1; s <= (th ? 100000 : 20000); ++s) V.push_back(s);
            for (int b = 15; b < 32; ++b) for (long long e = -1; e <= 1; ++e) { long long s = (1ll << b) + e; if (s > V.back() && s < (1ll << 32)) V.push_back(s); }
            for (long long s : V) {
                std::vector<long long> a, b;
                for (auto *x : {&a, &b}) { callIt(*dice(), "seed", {Tiny_NewInt(s)}); for (int k = 0; k < 8; ++k) { x->push_back(number(callIt(*dice(), "draw", {}))); if (x->back() < 0) mc::fail("a negative number for seed %lld", s); } }
                if (a != b) mc::fail("seed %lld gives different numbers the second time", s);
                if (!seen.insert({a, s}).second) mc::fail("seeds %lld and %lld give the same numbers", seen[a], s);
                mc::noteState(mc::hash(a.data(), a.size() * sizeof a[0]));
                mc::noteTransitions(18);
            }
            mc::noteTrace();
        });
        mc::family("time", 64 * 5 + 2000, [](uint64_t i) {
            long long v = i < 320 ? (1ll << (i / 5 % 40)) + (long long)(i % 5) - 2 : (long long)(i - 320) * 86400 * 31;
            clocks(v < 0 ? 0 : v);
        });
    });
    if (getpid() == self) { std::error_code ec; std::filesystem::remove_all(dirOf, ec); }
    return rc;
}
