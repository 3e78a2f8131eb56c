// P10: every byte goes through the supplied allocators and comes back.
#include <set>
#include <unordered_map>
#include <map>
#include <sys/mman.h>
#include "stdref.hpp"
#include "corpus.hpp"
#include "gen.hpp"
using namespace gen;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

static int inLib = 0, inAlloc = 0;
static long direct = 0;
static void hookM(const volatile void *, size_t) { if (inLib && !inAlloc) ++direct; }
static void hookF(const volatile void *) {}
struct Lib { Lib() { ++inLib; } ~Lib() { --inLib; } };
struct Mine { Mine() { ++inAlloc; } ~Mine() { --inAlloc; } };

// Where an allocator puts its blocks: malloc, or a pool without anything between the blocks, in which
// a block is put right after or right before the previous one, or in the first or last gap it fits.
enum Placement { MALLOC, UPWARDS, DOWNWARDS, FIRST_FIT, LAST_FIT, LAST_FREED, NPLACEMENT };
static const char *PLACEMENT[] = {"malloc", "each right after the last", "each right before the last", "the first gap", "the last gap", "the block freed last"};
static Placement placement = MALLOC;
static size_t granule = 16;
struct Pool {
    static const size_t SIZE = 1 << 22;
    char *mem = nullptr;
    size_t up = 0, down = SIZE;
    std::map<size_t, size_t> used;            // offset -> size
    std::vector<std::pair<size_t, size_t>> freed;
    void reset() { up = 0; down = SIZE; used.clear(); freed.clear(); }
    void *get(size_t n) {
        if (!mem) mem = (char *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        n = (n + granule - 1) / granule * granule;
        size_t at = SIZE;
        if (placement == LAST_FREED)
            for (size_t k = freed.size(); k-- > 0 && at == SIZE;)
                if (freed[k].second >= n) { at = freed[k].first; freed.erase(freed.begin() + k); }
        if (at != SIZE) {}
        else if (placement == UPWARDS || placement == LAST_FREED) { if (up + n <= SIZE) { at = up; up += n; } }
        else if (placement == DOWNWARDS) { if (down >= n) { at = down -= n; } }
        else {
            size_t end = 0, best = SIZE;
            for (auto &u : used) {
                if (u.first - end >= n) { best = placement == FIRST_FIT ? end : u.first - n; if (placement == FIRST_FIT) break; }
                end = u.first + u.second;
            }
            if (SIZE - end >= n && (placement == LAST_FIT || best == SIZE)) best = placement == FIRST_FIT ? end : SIZE - n;
            at = best;
        }
        if (at == SIZE) return nullptr;
        used[at] = n;
        return mem + at;
    }
    bool put(void *p) {
        if (!mem || (char *)p < mem || (char *)p >= mem + SIZE) return false;
        size_t at = (size_t)((char *)p - mem);
        freed.push_back({at, used[at]});
        used.erase(at);
        return true;
    }
};
struct Acct {
    const char *name;
    std::unordered_map<void *, size_t> live;
    long total = 0, ops = 0;
    Pool pool;
    void *get(size_t n) { void *p = placement == MALLOC ? nullptr : pool.get(n); return p ? p : malloc(n); }
    void put(void *p) { if (!pool.put(p)) free(p); }
    Acct(const char *name) : name(name) {}
    ~Acct() { if (pool.mem) munmap(pool.mem, Pool::SIZE); }
};
static std::vector<Acct *> all;
[[noreturn]] static void bad(Acct *a, void *p, const char *what) {
    const char *owner = "no allocator";
    for (auto x : all) if (x->live.count(p)) owner = x->name;
    mc::fail("%s: a block which belongs to %s was given to %s", what, owner, a->name);
}
static void *acctAlloc(void *p, size_t n, void *ud) {
    Mine m;
    Acct *a = (Acct *)ud;
    ++a->ops;
    if (!p) {
        if (!n) return nullptr;
        void *r = a->get(n);
        memset(r, 0xAA, n);
        a->live[r] = n;
        a->total += (long)n;
        return r;
    }
    auto it = a->live.find(p);
    if (it == a->live.end()) bad(a, p, n ? "realloc" : "free");
    size_t old = it->second;
    a->live.erase(it);
    a->total -= (long)old;
    if (!n) { memset(p, 0xDD, old); a->put(p); return nullptr; }
    void *r = a->get(n);      // always moves
    memset(r, 0xAA, n);
    memcpy(r, p, old < n ? old : n);
    memset(p, 0xDD, old);
    a->put(p);
    a->live[r] = n;
    a->total += (long)n;
    return r;
}
static Tiny_Context ctxOf(Acct &a) { return Tiny_Context{acctAlloc, &a}; }

// ---- bindings which allocate only through the thread
static TINY_FOREIGN_FUNCTION(qOut) { return Tiny_Null; }
static TINY_FOREIGN_FUNCTION(qId) { return args[0]; }
struct CtxNat { Tiny_Value v; };
static void cnMark(void *p) { Tiny_ProtectFromGC(((CtxNat *)p)->v); }
static void cnFree(Tiny_Context *c, void *p) { Tiny_AllocUsingContext(*c, p, 0); }
static const Tiny_NativeProp cnProp = {"cn", cnMark, cnFree};
static TINY_FOREIGN_FUNCTION(qBox) {
    CtxNat *n = (CtxNat *)Tiny_AllocUsingContext(thread->ctx, NULL, sizeof *n);
    n->v = count ? args[0] : Tiny_Null;
    return Tiny_NewNative(thread, n, &cnProp);
}
static TINY_FOREIGN_FUNCTION(qUnbox) { return ((CtxNat *)Tiny_ToAddr(args[0]))->v; }
static TINY_FOREIGN_FUNCTION(qSetBox) { ((CtxNat *)Tiny_ToAddr(args[0]))->v = args[1]; return Tiny_Null; }
static TINY_FOREIGN_FUNCTION(qHs) {
    // the three ways of making strings
    static int turn;
    switch (turn++ % 3) {
        case 0: return Tiny_NewStringCopyNullTerminated(thread, "heap");
        case 1: { char *s = (char *)Tiny_AllocUsingContext(thread->ctx, NULL, 5); memcpy(s, "own", 4); return Tiny_NewString(thread, s, 3); }
        default: { char *s = (char *)Tiny_AllocUsingContext(thread->ctx, NULL, 8); memcpy(s, "ownz", 5); return Tiny_NewStringNullTerminated(thread, s); }
    }
}
static TINY_FOREIGN_FUNCTION(qNatId) { return Tiny_NewInt(1); }
static TINY_FOREIGN_FUNCTION(qNextOp) { return Tiny_NewInt(df::scriptPos < df::script.size() ? df::script[df::scriptPos++] : -1); }
static void binder(Tiny_State *s) {
    Tiny_BindFunction(s, "out", qOut);
    for (auto n : {"oi(int): void", "ob(bool): void", "of(float): void", "os(str): void", "dump(...): void"}) Tiny_BindFunction(s, n, qOut);
    for (auto n : {"ti(int): int", "tb(bool): bool", "tf(float): float", "ts(str): str", "ta(any): any"}) Tiny_BindFunction(s, n, qId);
    Tiny_RegisterType(s, "nat");
    Tiny_RegisterType(s, "nat");
    Tiny_BindFunction(s, "mknat(): nat", qBox);
    Tiny_BindFunction(s, "natid(nat): int", qNatId);
    Tiny_BindFunction(s, "hs(...): str", qHs);
    Tiny_BindFunction(s, "nextop(): int", qNextOp);
    Tiny_RegisterType(s, "box");
    Tiny_BindFunction(s, "box(any): box", qBox);
    Tiny_BindFunction(s, "unbox(box): any", qUnbox);
    Tiny_BindFunction(s, "setbox(box, any): void", qSetBox);
    Tiny_BindConstBool(s, "cb", true);
    Tiny_BindConstInt(s, "ci", 5);
    Tiny_BindConstFloat(s, "cf", 2.5);
    Tiny_BindConstString(s, "cs", "constant");
    Tiny_BindStandardArray(s);
    Tiny_BindStandardDict(s);
    Tiny_BindStandardLib(s);
    Tiny_BindStandardIO(s);
    Tiny_BindI64(s);
}
struct World {
    Acct st{"the state's allocator"}, th[2] = {{"thread 1's allocator"}, {"thread 2's allocator"}};
    Tiny_State *s;
    Tiny_StateThread t[2];
    bool up[2] = {false, false};
    World() {
        all = {&st, &th[0], &th[1]};
        direct = 0;
        Lib l;
        s = Tiny_CreateStateWithContext(ctxOf(st));
        binder(s);
    }
    bool compile(const string &src) {
        long before = th[0].ops + th[1].ops;
        Tiny_CompileResult r;
        { Lib l; r = Tiny_CompileString(s, "main", src.c_str()); }
        mc::noteTrace();
        if (th[0].ops + th[1].ops != before) mc::fail("compiling used a thread's allocator\n%s", src.c_str());
        return r.type == TINY_COMPILE_SUCCESS;
    }
    void start(int i) {
        long before = st.ops;
        Lib l;
        if (!up[i]) Tiny_InitThreadWithContext(&t[i], s, ctxOf(th[i]));
        up[i] = true;
        Tiny_StartThread(&t[i]);
        (void)before;
    }
    // Runs up to n cycles, collecting before every gc-th.
    long run(int i, long n, int gc = 0) {
        long c = 0, so = st.ops;
        Lib l;
        while (c < n) {
            if (gc) t[i].maxNumObjects = c % gc == 0 ? 0 : INT_MAX;
            if (!Tiny_ExecuteCycle(&t[i])) break;
            ++c;
        }
        if (st.ops != so) mc::fail("running a thread used the state's allocator");
        mc::noteTransitions(c);
        return c;
    }
    void destroyThread(int i) {
        if (!up[i]) return;
        long so = st.ops;
        { Lib l; Tiny_DestroyThread(&t[i]); }
        up[i] = false;
        if (st.ops != so) mc::fail("destroying a thread used the state's allocator");
        if (!th[i].live.empty()) mc::fail("%zu blocks (%ld bytes) of %s are left after destroying the thread", th[i].live.size(), th[i].total, th[i].name);
    }
    void finish(const string &src, bool stateLast = true) {
        destroyThread(0);
        destroyThread(1);
        { Lib l; Tiny_DeleteState(s); }
        mc::noteState(mc::hash(src) * 31 + st.ops * 7 + th[0].ops);
        for (auto a : all)
            if (!a->live.empty()) mc::fail("%zu blocks (%ld bytes) of %s are left at the end\n%s", a->live.size(), a->total, a->name, src.c_str());
        if (direct) mc::fail("%ld allocations bypassed the supplied allocators\n%s", direct, src.c_str());
    }
};
static const std::vector<string> &U = corpus::units();
// every pair of units in one or two compilations, run with collections at every k-th instruction
static void pairs(uint64_t i) {
    mc::Digits d(i);
    int a = (int)d(U.size()), b = (int)d(U.size()), how = (int)d(4);
    World w;
    string src = a == b ? U[a] : U[a] + "\n" + U[b];
    if (how & 1) { if (!w.compile(U[a])) mc::fail("rejected: %s", U[a].c_str()); if (a != b && !w.compile(U[b])) mc::fail("rejected: %s", U[b].c_str()); }
    else if (!w.compile(src)) mc::fail("rejected: %s", src.c_str());
    w.start(0);
    w.run(0, 100000, how & 2 ? 1 : 3);
    if (how & 2) { w.start(0); w.run(0, 50, 0); w.start(1); w.run(1, 37, 2); }
    w.finish(src);
    mc::noteRun();
}
// every single-token mutation of every unit: prefix, deletion, insertion, replacement
static const char *TOK[] = {"(", ")", "{", "}", ",", "x", "1", "\"s\"", "func", "struct", "if", "new", ":", "use", "\"open", "/", "return", "1e", "#", "'"};
static const int NTOK = 20;
static std::vector<std::vector<string>> T;
static uint64_t mutCount() { uint64_t n = 0; for (auto &t : T) n += t.size() * (2 + 2 * NTOK); return n; }
static string mutAt(uint64_t i) {
    size_t u = 0;
    while (i >= T[u].size() * (2 + 2 * NTOK)) { i -= T[u].size() * (2 + 2 * NTOK); ++u; }
    mc::Digits d(i);
    int how = (int)d(2 + 2 * NTOK);
    size_t at = (size_t)d.v;
    auto t = T[u];
    if (how == 0) t.resize(at);
    else if (how == 1) t.erase(t.begin() + at);
    else if (how < 2 + NTOK) t.insert(t.begin() + at, TOK[how - 2]);
    else t[at] = TOK[how - 2 - NTOK];
    return corpus::joined(t);
}
static void mutations(uint64_t i) {
    string src = mutAt(i);
    World w;
    bool ok = w.compile("ok1 := 5 struct Ok { a: int } func okf(x: int): int { y := x return y } out(okf(ok1))");
    if (!ok) mc::fail("base rejected");
    bool mutated = w.compile(src);      // running an accepted mutant may violate a container's contract
    if (!w.compile("ok2 := okf(3) ok3 := new Ok{ok2} out(ok3.a, hs(1))")) mc::fail("later compilation rejected after\n%s", src.c_str());
    if (!mutated) { w.start(0); w.run(0, 200, 1); }
    w.finish(src);
}
// threads destroyed after every number of instructions
static void stopped(uint64_t i) {
    int u = (int)(i % U.size());
    long at = (long)(i / U.size());
    World w;
    if (!w.compile(U[u])) mc::fail("rejected: %s", U[u].c_str());
    w.start(0);
    if (w.run(0, at, (int)(at % 3)) < at) { w.finish(U[u]); return; }
    w.start(1);
    w.run(1, at / 2, 0);
    w.finish(U[u]);
    mc::noteRun();
}
// operation histories on containers
static std::vector<string> OPS = {
    "s = hs(s, 2)", "s = strcat(s, \"z\")", "n = new N{cast(n, any), s}", "n.l = cast(a, any)", "array_any_push(a, s)", "array_any_push(a, a)", "array_any_resize(a, 40)", "array_any_resize(a, 0)", "array_any_clear(a)", "a = array_any(1, s, 3)", "a = array_any()",
    "dict_put(d, hs(\"k\"), n)", "dict_put(d, n, 1)", "for i := 0; i < 40; i += 1 { dict_put(d, i, s) }", "dict_clear(d)", "d = dict(\"a\", 1)", "w = cast(dict_keys(d), any)", "w = cast(dict_values(d), any)", "b = box(b)", "w = unbox(b)", "for i := 0; i < 20; i += 1 { dict_remove(d, i) }",
    "s = substr(s, 0, 1)", "s = int_to_str(strlen(s))", "w = call_function(get_function_index(\"cb1\"), s)", "ints_push(p, 3)", "ints_sort(p)", "p = ints(5, 4, 3, 2, 1)", "s = N2_to_json(new N2{1, s})", "s = i64_to_string(i64_add_many(int_to_i64(5), int_to_i64(6)))", "delegate_int_int_call(dg(), 5)", "w = cast(null2(n), any)"};
static World *W;
static void machine(uint64_t i, int len) {
    static string src;
    if (!W) {
        W = new World;
        src = df::machine("use array(\"any\") as array_any use array(\"int\") as ints struct N { l: any r: any } struct N2 { a: int b: str } use json(\"N2\")\nfunc inc(x: int): int { return x + 1 } use delegate(\"inc\") as dg\nfunc cb1(s: str): any { t := strcat(s, \"!\") return box(t) } func null2(n: N): N { }\n",
                          "s := hs(1) n := new N{null, null} a := array_any() d := dict() b := box(null) w: any = null p := ints()", OPS, "", "", false);
        if (!W->compile(src)) mc::fail("the machine is rejected");
    }
    std::vector<int> q;
    for (int k = 0; k < len; ++k, i /= OPS.size()) q.push_back((int)(i % OPS.size()));
    for (int gc : {1, 0}) {
        df::script = q;
        df::scriptPos = 0;
        W->start(0);
        W->run(0, 1000000, gc);
        W->destroyThread(0);
        if (direct) mc::fail("%ld allocations bypassed the supplied allocators", direct);
        mc::noteRun();
    }
}
// every unit with every way of placing blocks, run twice with collections at every k-th instruction
static const int GRAN[] = {8, 16, 64};
static void placements(uint64_t i) {
    mc::Digits d(i);
    string src = U[d(U.size())];
    placement = (Placement)(1 + d(NPLACEMENT - 1));
    granule = (size_t)GRAN[d(3)];
    int gc = (int)d(3);
    World w;
    if (!w.compile(src) || w.compile("q := 1 ?")) mc::fail("rejected: %s", src.c_str());
    w.start(0);
    w.run(0, 20000, gc);
    w.start(1);
    w.run(1, 500, gc);
    w.destroyThread(0);
    w.run(1, 500, gc);
    w.finish(src);
    mc::noteRun();
    placement = MALLOC;
}
// everything the host can do without running a program
static void hostOps(uint64_t i) {
    mc::Digits d(i);
    World w;
    string seq;
    static int f;
    const string base = "g := 1 func f(a: any, b: int): any { t := box(a) return t } func h(): any { return hs(1) }";
    bool compiled = false;
    for (int k = 0; k < 4; ++k) {
        int op = (int)d(11), t = (int)d(2);
        seq += I(op) + " ";
        auto init = [&](int t) { if (!w.up[t]) { Tiny_InitThreadWithContext(&w.t[t], w.s, ctxOf(w.th[t])); w.up[t] = true; } };
        switch (op) {
            case 0: if (!compiled) compiled = w.compile(base); break;
            case 1: w.compile("y := := 2 struct Q {"); break;
            case 2: { Lib l; init(t); break; }
            case 3: if (compiled) w.start(t); break;
            case 4: w.destroyThread(t); break;
            case 5: if (compiled) { Lib l; init(t); Tiny_Value a[2] = {Tiny_NewInt(1), Tiny_NewInt(2)}; Tiny_CallFunction(&w.t[t], Tiny_GetFunctionIndex(w.s, "f"), a, 2); } break;
            case 6: if (compiled && w.up[t] && w.t[t].globalVars) { Lib l; Tiny_SetGlobal(&w.t[t], Tiny_GetGlobalIndex(w.s, "g"), Tiny_CallFunction(&w.t[t], Tiny_GetFunctionIndex(w.s, "h"), NULL, 0)); } break;
            case 7: if (compiled) { w.start(t); w.run(t, 3); } break;
            case 8: { string fn = "fn" + I(k) + "(int, nat?, ...): nat?", ty = "ty" + I(k), co = "k" + I(k); Lib l; Tiny_BindFunction(w.s, fn.c_str(), qOut); Tiny_RegisterType(w.s, ty.c_str()); Tiny_BindConstString(w.s, co.c_str(), "v"); break; }
            case 9: { Lib l; Tiny_FindTypeSymbol(w.s, "nat"); Tiny_FindFuncSymbol(w.s, "out"); Tiny_FindConstSymbol(w.s, "ci"); Tiny_GetGlobalIndex(w.s, "g"); Tiny_GetFunctionIndex(w.s, "zzz"); break; }
            default: { Tiny_CompileResult r; Mine m; r = Tiny_CompileFile(w.s, "/nonexistent/file.tiny"); if (r.type == TINY_COMPILE_SUCCESS) mc::fail("compiled a file which does not exist"); break; }
        }
    }
    w.finish("host operations " + seq);
}
// files, with and without errors in them
static void compileFile(uint64_t i) {
    string src = corpus::joined(T[i / 64], 0, (size_t)(i % 64) + 1);
    char path[] = "/tmp/verif-p10-XXXXXX";
    { Mine m; int fd = mkstemp(path); if (write(fd, src.data(), src.size()) < 0) _exit(3); close(fd); }
    World w;
    bool ok;
    { Mine m; ok = Tiny_CompileFile(w.s, path).type == TINY_COMPILE_SUCCESS; }
    unlink(path);
    // a truncated program may violate a contract when run
    bool whole = (size_t)(i % 64) + 1 >= T[i / 64].size();
    if (whole && !ok) mc::fail("the file is rejected\n%s", src.c_str());
    if (w.compile("out(1)") && (!ok || whole)) { w.start(0); w.run(0, 10000); }
    w.finish(src);
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        __sanitizer_install_malloc_and_free_hooks(hookM, hookF);
        for (auto &u : U) T.push_back(corpus::tokens(u));
        mc::family("pairs", U.size() * U.size() * 4, pairs);
        mc::family("mutations", mutCount(), mutations, mutAt);
        mc::family("stopped", U.size() * (mc::thorough ? 1000 : 160), stopped, [](uint64_t i) { return I(i / U.size()) + " cycles of\n" + U[i % U.size()]; });
        int len = mc::thorough ? 4 : 3;
        mc::family("histories", mc::power(OPS.size(), len), [len](uint64_t i) { machine(i, len); }, [len](uint64_t i) { string s; for (int k = 0; k < len; ++k, i /= OPS.size()) s += OPS[i % OPS.size()] + "\n"; return s; });
        mc::family("placements", U.size() * (NPLACEMENT - 1) * 9, placements, [](uint64_t i) { string u = U[i % U.size()]; i /= U.size(); return string(PLACEMENT[1 + i % (NPLACEMENT - 1)]) + ", units of " + I(GRAN[i / (NPLACEMENT - 1) % 3]) + " bytes\n" + u; });
        mc::family("hostOps", mc::power(22, 4), hostOps);
        mc::family("files", U.size() * 64, compileFile);
    });
}
