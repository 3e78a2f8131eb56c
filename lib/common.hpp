// Exhaustive exploration driver shared by all checks.
//
// A check is a list of families; a family is a finite, indexable space of cases
// (0 .. count-1).  Every case is executed against the code built from /repo, in
// forked workers so that crashes, sanitizer reports, failed assertions and hangs of
// the code under test are observations rather than accidents.  A failing case is
// replayed in fresh processes and only reported when it fails there too.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

extern "C" inline __attribute__((used, visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:quarantine_size_mb=4:malloc_context_size=8:"
           "hard_rss_limit_mb=3000:max_allocation_size_mb=1024:allocator_may_return_null=0:"
           "detect_stack_use_after_return=0:handle_abort=0:symbolize=0:fast_unwind_on_malloc=1";
}

namespace mc {

struct Family {
    std::string name;
    uint64_t count;
    std::function<void(uint64_t)> run;
    std::function<std::string(uint64_t)> describe;
};

static const int MAXW = 16;
static const uint64_t BITS = 1ull << 29;

struct Slot {
    std::atomic<uint64_t> cur, first, end, started;   // case being run, start/end of the chunk, start time (ms)
    std::atomic<int> busy;
};
struct Shared {
    std::atomic<uint64_t> next, cases, states, transitions, traces, skipped, runs, extra[8];
    std::atomic<int> stop;
    Slot slot[MAXW];
    char msg[MAXW + 1][6000];
    std::atomic<uint64_t> famCases[128];
    std::atomic<uint64_t> bitmap[BITS / 64];
};
static Shared *G;
static int me = MAXW;             // worker number
static std::vector<Family> families;
static bool thorough = false;
static std::string tier = "quick";
static double startTime, budget = 80;
static const char *extraNames[8];
static int nExtra = 0;
// Findings which are recorded as known: a failing case whose description or message contains one
// of these texts is counted and exploration goes on.
static std::vector<std::string> knownTexts;
static std::vector<uint64_t> knownHits;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline uint64_t nowMs() { return (uint64_t)(now() * 1000); }

// ------------------------------------------------------------- used by cases
[[noreturn]] inline void fail(const char *fmt, ...) {
    va_list a;
    va_start(a, fmt);
    vsnprintf(G->msg[me], sizeof G->msg[me], fmt, a);
    va_end(a);
    _exit(77);
}
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }
inline void noteState(uint64_t h) {
    uint64_t b = h % BITS;
    uint64_t m = 1ull << (b & 63);
    if (G->bitmap[b >> 6].load(std::memory_order_relaxed) & m) return;
    if (!(G->bitmap[b >> 6].fetch_or(m, std::memory_order_relaxed) & m))
        G->states.fetch_add(1, std::memory_order_relaxed);
}
inline void noteTransitions(uint64_t n) { G->transitions.fetch_add(n, std::memory_order_relaxed); }
inline void noteTrace() { G->traces.fetch_add(1, std::memory_order_relaxed); }
inline void noteRun() { G->runs.fetch_add(1, std::memory_order_relaxed); }
inline void noteSkip() { G->skipped.fetch_add(1, std::memory_order_relaxed); }
inline void bump(int i, uint64_t n = 1) { G->extra[i].fetch_add(n, std::memory_order_relaxed); }
inline int counter(const char *name) { extraNames[nExtra] = name; return nExtra++; }

inline void family(const std::string &name, uint64_t count, std::function<void(uint64_t)> run,
                   std::function<std::string(uint64_t)> describe = nullptr) {
    static const char *just = getenv("VERIF_FAMILY");   // to time a family
    if (just && name != just) return;
    families.push_back({name, count, run, describe});
}

// ------------------------------------------------------------- mixed radix helper
// Decodes an index into digits.  Digits d(r) are taken from least significant on.
struct Digits {
    uint64_t v;
    explicit Digits(uint64_t x) : v(x) {}
    uint64_t operator()(uint64_t radix) { uint64_t r = v % radix; v /= radix; return r; }
};
inline uint64_t power(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
// All sequences over an alphabet of size k with length 0..n are numbered 0..seqCount-1.
inline uint64_t seqCount(uint64_t k, unsigned n) { uint64_t s = 0; for (unsigned i = 0; i <= n; ++i) s += power(k, i); return s; }
inline std::vector<int> seqAt(uint64_t k, uint64_t idx) {
    unsigned len = 0;
    while (idx >= power(k, len)) { idx -= power(k, len); ++len; }
    std::vector<int> out(len);
    for (unsigned i = 0; i < len; ++i) { out[i] = (int)(idx % k); idx /= k; }
    return out;
}

// ------------------------------------------------------------- the driver
inline std::pair<int, uint64_t> locate(uint64_t g) {
    int f = 0;
    while (g >= families[f].count) { g -= families[f].count; ++f; }
    return {f, g};
}
inline uint64_t total() { uint64_t t = 0; for (auto &f : families) t += f.count; return t; }

inline void quiet(const char *path) {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int z = open("/dev/null", O_RDWR);
    if (z >= 0) { dup2(z, 1); dup2(z, 0); close(z); }
}
inline void runOne(uint64_t g) {
    auto [f, i] = locate(g);
    G->slot[me < MAXW ? me : 0].started = nowMs();
    families[f].run(i);
    G->cases.fetch_add(1, std::memory_order_relaxed);
    G->famCases[f].fetch_add(1, std::memory_order_relaxed);
}
inline void workerBody(int w, uint64_t first, uint64_t last, bool grab, uint64_t chunk, uint64_t all) {
    me = w;
    Slot &s = G->slot[w];
    static const uint64_t stride = getenv("VERIF_STRIDE") ? strtoull(getenv("VERIF_STRIDE"), 0, 10) : 1;   // for trying out mutants only
    for (;;) {
        for (uint64_t i = first; i < last; ++i) {
            if (G->stop) _exit(0);
            if (stride > 1) {
                auto [f, c] = locate(i);
                uint64_t k = families[f].count / 50, n = k < stride ? k : stride;
                if (n > 1 && (c * 0x9E3779B97F4A7C15ull >> 40) % n) continue;
            }
            s.cur = i;
            runOne(i);
        }
        if (!grab) break;
        if (now() - startTime > budget) { G->stop = 2; break; }
        uint64_t c = chunk, at = G->next.fetch_add(c);
        if (at >= all) break;
        first = at; last = at + c < all ? at + c : all;
        s.first = first; s.end = last;
    }
    _exit(0);
}

struct Outcome { bool failed; std::string what; std::string err; };
inline std::string tail(const std::string &path, size_t n = 3000) {
    FILE *f = fopen(path.c_str(), "rb");
    if (!f) return "";
    fseek(f, 0, SEEK_END);
    long l = ftell(f);
    long from = l > (long)n ? l - (long)n : 0;
    // sanitizer reports put the interesting part first
    rewind(f);
    std::string s;
    (void)from;
    s.resize(l > (long)n ? n : l);
    size_t got = fread(&s[0], 1, s.size(), f);
    s.resize(got);
    fclose(f);
    return s;
}
inline std::string explain(int st, int w, bool hung) {
    char b[200];
    if (hung) return "the case did not terminate within its time limit";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return G->msg[w];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return "memory error reported by the sanitizer";
    if (WIFEXITED(st)) { snprintf(b, sizeof b, "the code under test ended the process with exit status %d", WEXITSTATUS(st)); return b; }
    snprintf(b, sizeof b, "the code under test was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return b;
}
// Runs cases [a, b) in a fresh child.
inline Outcome replay(uint64_t a, uint64_t b, int limitSec, const std::string &dir, bool show = false) {
    std::string errPath = dir + "/replay.err";
    G->msg[MAXW][0] = 0;
    pid_t pid = fork();
    if (!pid) {
        setpgid(0, 0);
        if (!show) quiet(errPath.c_str());
        me = MAXW;
        for (uint64_t i = a; i < b; ++i) {
            auto [f, k] = locate(i);
            families[f].run(k);
        }
        _exit(0);
    }
    double t0 = now();
    int st;
    bool hung = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limitSec) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(5000);
    }
    kill(-pid, SIGKILL);
    Outcome o;
    o.failed = hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (o.failed) { o.what = explain(st, MAXW, hung); if (!show) o.err = tail(errPath); }
    unlink(errPath.c_str());
    return o;
}
inline std::string jsonEsc(const std::string &s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

inline int drive(int argc, char **argv, std::function<void()> setup) {
    std::string out = "result.json", scratch = "/tmp", only;
    int workers = 8, caseLimit = getenv("VERIF_LIMIT") ? atoi(getenv("VERIF_LIMIT")) : 20;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier") tier = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--scratch") scratch = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--known") { knownTexts.push_back(argv[++i]); knownHits.push_back(0); }
    }
    if (workers > MAXW) workers = MAXW;
    thorough = tier == "thorough";
    rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);
    G = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    startTime = now();
    setup();
    uint64_t all = total();
    if (!only.empty()) {   // --only family:index, verbose replay
        size_t c = only.rfind(':');
        uint64_t base = 0, idx = strtoull(only.c_str() + c + 1, nullptr, 10);
        for (auto &f : families) {
            if (f.name == only.substr(0, c)) {
                if (f.describe) printf("%s\n", f.describe(idx).c_str());
                fflush(stdout);
                Outcome o = replay(base + idx, base + idx + 1, 120, scratch, true);
                printf("%s\n", o.failed ? ("FAILED: " + o.what).c_str() : "passed");
                return o.failed;
            }
            base += f.count;
        }
        return 2;
    }
    uint64_t chunk = all / (workers * 50) + 1;
    if (chunk > 256) chunk = 256;
    std::vector<pid_t> pid(workers, 0);
    auto spawn = [&](int w, uint64_t a, uint64_t b) {
        G->slot[w].cur = a; G->slot[w].first = a; G->slot[w].end = b; G->slot[w].started = nowMs();
        G->msg[w][0] = 0;
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            setpgid(0, 0);
            quiet((scratch + "/w" + std::to_string(w) + ".err").c_str());
            workerBody(w, a, b, true, chunk, all);
        }
        pid[w] = p;
    };
    for (int w = 0; w < workers; ++w) spawn(w, 0, 0);
    int alive = workers, flaky = 0;
    bool violation = false;
    uint64_t badCase = 0, badFrom = 0;
    Outcome bad;
    while (alive) {
        usleep(3000);
        for (int w = 0; w < workers; ++w) {
            if (!pid[w]) continue;
            int st;
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool hung = false;
            if (!r) {
                uint64_t s = G->slot[w].started;
                if (nowMs() > s && nowMs() - s > (uint64_t)caseLimit * 1000) {
                    kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    hung = true;
                } else continue;
            }
            kill(-pid[w], SIGKILL);
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; --alive; continue; }
            pid[w] = 0;
            uint64_t cur = G->slot[w].cur, first = G->slot[w].first, end = G->slot[w].end;
            if (violation || G->stop == 1) { --alive; continue; }
            std::string seen = explain(st, w, hung);
            Outcome o = replay(cur, cur + 1, 60, scratch);
            uint64_t from = cur;
            if (!o.failed && first < cur) { o = replay(first, cur + 1, 120, scratch); from = first; }
            int listed = -1;
            if (o.failed && from == cur) {
                auto [kf, kc] = locate(cur);
                std::string all = o.what + "\n" + (families[kf].describe ? families[kf].describe(kc) : "");
                for (size_t k = 0; k < knownTexts.size(); ++k) if (all.find(knownTexts[k]) != std::string::npos) listed = (int)k;
            }
            if (listed >= 0) {
                ++knownHits[listed];
                auto [kf, kc] = locate(cur);
                G->cases++;
                G->famCases[kf]++;
                spawn(w, cur + 1, end);
            } else if (o.failed) {
                violation = true;
                bad = o; badCase = cur; badFrom = from;
                G->stop = 1;
                --alive;
            } else {
                ++flaky;
                fprintf(stderr, "note: case %llu failed once and not again: %s\n", (unsigned long long)cur, seen.c_str());
                fprintf(stderr, "%s\n", tail(scratch + "/w" + std::to_string(w) + ".err").c_str());
                if (flaky > 50) { --alive; continue; }
                G->cases++;
                spawn(w, cur + 1, end);
            }
        }
    }
    for (int w = 0; w < workers; ++w) unlink((scratch + "/w" + std::to_string(w) + ".err").c_str());
    bool complete = !violation && G->cases >= all;
    FILE *f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"cases\": %llu, \"total\": %llu, \"skipped\": %llu, \"runs\": %llu,"
               " \"exhaustive\": %s, \"flaky\": %d, \"wall_s\": %.3f",
            (unsigned long long)G->states, (unsigned long long)G->transitions, (unsigned long long)G->traces,
            (unsigned long long)G->cases, (unsigned long long)all, (unsigned long long)G->skipped, (unsigned long long)G->runs,
            complete ? "true" : "false", flaky, now() - startTime);
    fprintf(f, ", \"families\": [");
    for (size_t i = 0; i < families.size(); ++i)
        fprintf(f, "%s{\"name\": %s, \"cases\": %llu, \"of\": %llu}", i ? ", " : "", jsonEsc(families[i].name).c_str(),
                (unsigned long long)G->famCases[i], (unsigned long long)families[i].count);
    fprintf(f, "], \"counters\": {");
    for (int i = 0; i < nExtra; ++i)
        fprintf(f, "%s%s: %llu", i ? ", " : "", jsonEsc(extraNames[i]).c_str(), (unsigned long long)G->extra[i]);
    fprintf(f, "}, \"known\": {");
    for (size_t k = 0; k < knownTexts.size(); ++k)
        fprintf(f, "%s%s: %llu", k ? ", " : "", jsonEsc(knownTexts[k]).c_str(), (unsigned long long)knownHits[k]);
    fprintf(f, "}");
    // a few samples of what the cases look like
    fprintf(f, ", \"samples\": [");
    bool firstS = true;
    for (auto &fam : families) {
        if (!fam.describe || !fam.count) continue;
        std::string d = fam.describe(fam.count / 2);
        if (d.size() > 400) d.resize(400);
        fprintf(f, "%s%s", firstS ? "" : ", ", jsonEsc(fam.name + ": " + d).c_str());
        firstS = false;
    }
    fprintf(f, "]");
    if (violation) {
        auto [fam, idx] = locate(badCase);
        auto [fam2, idx2] = locate(badFrom);
        fprintf(f, ", \"violation\": {\"case\": %s, \"from\": %s, \"what\": %s, \"input\": %s, \"stderr\": %s}",
                jsonEsc(families[fam].name + ":" + std::to_string(idx)).c_str(),
                jsonEsc(families[fam2].name + ":" + std::to_string(idx2)).c_str(), jsonEsc(bad.what).c_str(),
                jsonEsc(families[fam].describe ? families[fam].describe(idx) : "").c_str(), jsonEsc(bad.err).c_str());
    }
    fprintf(f, "}\n");
    fclose(f);
    return violation ? 1 : 0;
}

}  // namespace mc
