// Running a source text both in the implementation and in the reference interpreter and
// comparing verdicts, foreign-call traces and final globals.
#pragma once
#include <limits.h>
#include "common.hpp"
#include "ref.hpp"
extern "C" {
#include "tiny.h"
int shim_field_count(Tiny_Value v);
}

namespace df {

using std::string;

// ------------------------------------------------------------- identities for natives
struct Nat { int id; int finalized; };
extern "C" inline void natFinalize(Tiny_Context *, void *p);
struct Log {                 // per-thread observation log
    string out;
    int nextNat = 1;
    long finalizers = 0;
    std::vector<Nat *> nats;
    std::function<Tiny_Value(Tiny_StateThread *, const string &, const Tiny_Value *, int)> hook;
};
inline Log *logOf(Tiny_StateThread *t) { return (Log *)t->userdata; }
static void natFin(Tiny_Context *, void *p) { ((Nat *)p)->finalized++; }
static const Tiny_NativeProp natProp = {"nat", nullptr, natFin};

inline void showT(string &out, Tiny_Value v, int depth = 4) {
    char buf[64];
    switch (v.type) {
        case TINY_VAL_NULL: out += 'N'; break;
        case TINY_VAL_BOOL: out += Tiny_ToBool(v) ? "B1" : "B0"; break;
        case TINY_VAL_INT: snprintf(buf, sizeof buf, "I%lld", (long long)Tiny_ToInt(v)); out += buf; break;
        case TINY_VAL_FLOAT: snprintf(buf, sizeof buf, Tiny_ToFloat(v) != Tiny_ToFloat(v) ? "Fnan" : "F%a", Tiny_ToFloat(v)); out += buf; break;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: {
            size_t n = Tiny_StringLen(v);
            snprintf(buf, sizeof buf, "S%zu:", n);
            out += buf;
            out.append(Tiny_ToString(v), n);
            break;
        }
        case TINY_VAL_STRUCT: {
            if (!depth) { out += "{..}"; break; }
            out += '{';
            int n = shim_field_count(v);
            for (int k = 0; k < n; ++k) {
                if (k) out += ',';
                showT(out, Tiny_GetField(v, k), depth - 1);
            }
            out += '}';
            break;
        }
        case TINY_VAL_NATIVE:
            snprintf(buf, sizeof buf, "O%d", Tiny_GetProp(v) == &natProp ? ((Nat *)Tiny_ToAddr(v))->id : 0);
            out += buf;
            break;
        case TINY_VAL_LIGHT_NATIVE: snprintf(buf, sizeof buf, "L%ld", (long)(intptr_t)Tiny_ToAddr(v)); out += buf; break;
        default: snprintf(buf, sizeof buf, "?%d", v.type); out += buf; break;
    }
}
inline void (*onLog)(Tiny_StateThread *) = nullptr;
inline void logCall(Tiny_StateThread *t, const char *name, const Tiny_Value *args, int count) {
    if (onLog) onLog(t);
    Log *l = logOf(t);
    l->out += name;
    l->out += '(';
    for (int i = 0; i < count; ++i) { if (i) l->out += ','; showT(l->out, args[i]); }
    l->out += ");";
}
inline void logRef(string &o, const char *name, const std::vector<ref::Val> &a) {
    o += name;
    o += '(';
    for (size_t i = 0; i < a.size(); ++i) { if (i) o += ','; ref::show(o, a[i]); }
    o += ");";
}

#define DF_SINK(cname, name)                                                     \
    static TINY_FOREIGN_FUNCTION(cname) { logCall(thread, name, args, count); return Tiny_Null; }
#define DF_ID(cname, name)                                                       \
    static TINY_FOREIGN_FUNCTION(cname) { logCall(thread, name, args, count); return args[0]; }
DF_SINK(fOut, "out") DF_SINK(fOi, "oi") DF_SINK(fOb, "ob") DF_SINK(fOf, "of") DF_SINK(fOs, "os")
DF_ID(fTi, "ti") DF_ID(fTb, "tb") DF_ID(fTf, "tf") DF_ID(fTs, "ts") DF_ID(fTa, "ta")
static TINY_FOREIGN_FUNCTION(fNat) {
    Log *l = logOf(thread);
    Nat *n = new Nat{l->nextNat++, 0};
    l->nats.push_back(n);
    return Tiny_NewNative(thread, n, &natProp);
}
static TINY_FOREIGN_FUNCTION(fNatId) {
    return Tiny_NewInt(count && args[0].type == TINY_VAL_NATIVE ? ((Nat *)Tiny_ToAddr(args[0]))->id : -1);
}
static bool gcInForeign = false;   // collect at the end of the cycles which call hs or box
// A heap string (never a constant): the concatenation of its arguments' texts.
static TINY_FOREIGN_FUNCTION(fHeapStr) {
    string s;
    if (gcInForeign) thread->maxNumObjects = 0;
    for (int i = 0; i < count; ++i) {
        if (Tiny_ToString(args[i])) s.append(Tiny_ToString(args[i]), Tiny_StringLen(args[i]));
        else s += std::to_string((long long)Tiny_ToInt(args[i]));
    }
    return Tiny_NewStringCopy(thread, s.data(), s.size());
}

inline void bindImpl(Tiny_State *s) {
    Tiny_BindFunction(s, "out", fOut);
    Tiny_BindFunction(s, "oi(int): void", fOi);
    Tiny_BindFunction(s, "ob(bool): void", fOb);
    Tiny_BindFunction(s, "of(float): void", fOf);
    Tiny_BindFunction(s, "os(str): void", fOs);
    Tiny_BindFunction(s, "ti(int): int", fTi);
    Tiny_BindFunction(s, "tb(bool): bool", fTb);
    Tiny_BindFunction(s, "tf(float): float", fTf);
    Tiny_BindFunction(s, "ts(str): str", fTs);
    Tiny_BindFunction(s, "ta(any): any", fTa);
    Tiny_RegisterType(s, "nat");
    Tiny_BindFunction(s, "mknat(): nat", fNat);
    Tiny_BindFunction(s, "natid(nat): int", fNatId);
    Tiny_BindFunction(s, "hs(...): str", fHeapStr);
}

// The reference side of the same bindings.
struct RefEnv {
    ref::State S;
    ref::Machine *M = nullptr;
    string log;
    int nextNat = 1;
    std::deque<ref::Obj> nats;
    std::deque<string> strs;
    ref::Val str(const string &s) { strs.push_back(s); ref::Val v; v.t = ref::Val::Str; v.s = &strs.back(); return v; }
    ref::Val nat(int id) { nats.push_back(ref::Obj{}); nats.back().id = id; ref::Val v; v.t = ref::Val::Native; v.o = &nats.back(); return v; }
    RefEnv() {
        auto sink = [&](const char *sig, const char *n) {
            S.bind(sig, [this, n](std::vector<ref::Val> &a) { logRef(log, n, a); return ref::Val{}; });
        };
        auto ident = [&](const char *sig, const char *n) {
            S.bind(sig, [this, n](std::vector<ref::Val> &a) { logRef(log, n, a); return a[0]; });
        };
        sink("out", "out"); sink("oi(int): void", "oi"); sink("ob(bool): void", "ob");
        sink("of(float): void", "of"); sink("os(str): void", "os");
        ident("ti(int): int", "ti"); ident("tb(bool): bool", "tb"); ident("tf(float): float", "tf");
        ident("ts(str): str", "ts"); ident("ta(any): any", "ta");
        S.registerType("nat");
        S.bind("mknat(): nat", [this](std::vector<ref::Val> &) { return nat(nextNat++); });
        S.bind("natid(nat): int", [](std::vector<ref::Val> &a) {
            return ref::Val::mkInt(a[0].t == ref::Val::Native ? a[0].o->id : -1); });
        S.bind("hs(...): str", [this](std::vector<ref::Val> &a) {
            string s;
            for (auto &v : a) { if (v.t == ref::Val::Str) s += *v.s; else s += std::to_string((long long)(v.t == ref::Val::Int ? v.i : 0)); }
            return str(s);
        });
    }
};

// ------------------------------------------------------------- one implementation instance
struct Impl {
    Tiny_State *s = nullptr;
    Tiny_StateThread t;
    Log log;
    bool threadUp = false;
    long cycles = 0;
    string err;
    Tiny_CompileResult res;

    Impl(std::function<void(Tiny_State *)> binder = bindImpl) {
        s = Tiny_CreateState();
        if (binder) binder(s);
    }
    Impl(Tiny_Context ctx, std::function<void(Tiny_State *)> binder) {
        s = Tiny_CreateStateWithContext(ctx);
        if (binder) binder(s);
    }
    Impl(const Impl &) = delete;
    ~Impl() {
        if (threadUp) Tiny_DestroyThread(&t);
        if (s) Tiny_DeleteState(s);
        for (auto n : log.nats) delete n;
    }
    bool compile(const string &src, const char *name = "main") {
        res = Tiny_CompileString(s, name, src.c_str());
        err = res.type == TINY_COMPILE_SUCCESS ? "" : res.error.msg;
        return res.type == TINY_COMPILE_SUCCESS;
    }
    void init() {
        Tiny_InitThread(&t, s);
        t.userdata = &log;
        threadUp = true;
    }
    void start() {
        if (!threadUp) init();
        Tiny_StartThread(&t);
    }
    // Steps until done; notes every machine state.
    bool run(long maxCycles, uint64_t salt = 0, const std::function<void()> &before = nullptr) {
        long n = 0;
        while (!Tiny_IsThreadDone(&t)) {
            if (++n > maxCycles) { cycles += n; return false; }
            if (before) before();
            if (!Tiny_ExecuteCycle(&t)) break;
            uint64_t k[5] = {salt, ((uint64_t)(uint32_t)t.pc << 32) | (uint32_t)t.sp, (uint64_t)t.fc, log.out.size(), 0};
            if (t.sp > 0 && t.sp <= TINY_THREAD_STACK_SIZE && t.stack[t.sp - 1].type == TINY_VAL_INT) k[4] = (uint64_t)t.stack[t.sp - 1].i;
            mc::noteState(mc::hash(k, sizeof k));
        }
        cycles += n;
        mc::noteTransitions(n);
        return true;
    }
};

inline string clip(const string &s, size_t n = 1500) { return s.size() > n ? s.substr(0, n) + "..." : s; }

struct Opt {
    bool quietSkip = false;
    bool checkGlobals = true;
    std::function<void(Tiny_State *)> binder = bindImpl;
    std::function<void(RefEnv &)> refBinder;
    long gc = -1;      // value for maxNumObjects before every cycle, -1: leave alone
    bool useRun = false;
    long maxSteps = 200000;
    bool mustAccept = false;   // the family only contains valid programs
};

// The first place where two traces differ, with context.
inline string differ(const string &want, const string &got) {
    size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    size_t from = i > 60 ? i - 60 : 0;
    return "at offset " + std::to_string(i) + "\nexpected " + (from ? "..." : "") + clip(want.substr(from), 200) + "\nobserved " + (from ? "..." : "") + clip(got.substr(from), 200);
}

// One program in both worlds.
struct Duo {
    const Opt &o;
    RefEnv R;
    Impl I;
    string src;
    uint64_t h = 0;
    std::function<void()> reset;      // called before each of the two runs
    Duo(const Opt &opt) : o(opt), I(opt.binder) { if (o.refBinder) o.refBinder(R); }
    // Compiles in both, compares the verdicts; true when accepted.
    bool compile(const string &s, const char *name = "main") {
        src += s;
        string why = ref::compile(R.S, s);
        bool ok = I.compile(s, name);
        static const char *whyFile = getenv("VERIF_WHY");
        if (whyFile) { FILE *f = fopen(whyFile, "a"); fprintf(f, "%s\n", why.c_str()); fclose(f); }
        if (ok != why.empty()) {
            if (ok) mc::fail("accepted, but the program is not valid (%s)\n--- program\n%s\n", why.c_str(), clip(src).c_str());
            mc::fail("rejected with \"%s\", but the program is valid\n--- program\n%s\n", I.err.c_str(), clip(src).c_str());
        }
        if (!ok && o.mustAccept) mc::fail("a valid program is rejected with %s\n(%s)\n--- program\n%s\n", I.err.c_str(), why.c_str(), clip(src).c_str());
        mc::noteTrace();
        h = mc::hash(src);
        mc::noteState(h);
        if (!ok && I.err.empty()) mc::fail("rejected without a message\n--- program\n%s\n", clip(src).c_str());
        return ok;
    }
    // Runs both from the start and compares everything observable.
    bool run() {
        R.log.clear();
        R.nats.clear();
        R.strs.clear();
        R.nextNat = 1;
        if (reset) reset();
        ref::Machine M(R.S);
        M.maxSteps = o.maxSteps;
        R.M = &M;
        try {
            M.run();
        } catch (ref::Skip &e) {
            static const char *whyFile = getenv("VERIF_WHY");
            if (whyFile) { FILE *f = fopen(whyFile, "a"); fprintf(f, "skip: %s\n", e.why.c_str()); fclose(f); }
            mc::noteSkip();
            return false;
        }
        if (I.threadUp) { Tiny_DestroyThread(&I.t); I.threadUp = false; }
        for (auto n : I.log.nats) delete n;
        I.log.nats.clear();
        I.log.out.clear();
        I.log.nextNat = 1;
        if (reset) reset();
        I.start();
        bool done;
        long lim = M.steps * 100 + 10000;
        if (o.useRun) { Tiny_Run(&I.t); done = Tiny_IsThreadDone(&I.t); }
        else if (o.gc >= 0) done = I.run(lim, h, [&] { I.t.maxNumObjects = (int)o.gc; });
        else done = I.run(lim, h);
        mc::noteTrace();
        mc::noteRun();
        if (!done) mc::fail("the program does not terminate\nexpected %s\nobserved %s\n--- program\n%s\n", clip(R.log, 300).c_str(), clip(I.log.out, 300).c_str(), clip(src).c_str());
        if (I.log.out != R.log) mc::fail("different behaviour %s\n--- program\n%s\n", differ(R.log, I.log.out).c_str(), clip(src).c_str());
        if (I.t.sp != 0 || I.t.fc != 0)
            mc::fail("stacks not empty at the end: %d values, %d frames\n--- program\n%s\n", I.t.sp, I.t.fc, clip(src).c_str());
        if (o.checkGlobals)
            for (auto g : R.S.globals) {
                if (g->k != ref::Var::Global || (g->type && g->type->name.compare(0, 9, "delegate_") == 0)) continue;
                int idx = Tiny_GetGlobalIndex(I.s, g->name.c_str());
                if (idx < 0) mc::fail("global %s cannot be found\n--- program\n%s\n", g->name.c_str(), clip(src).c_str());
                string a, b;
                showT(a, Tiny_GetGlobal(&I.t, idx));
                ref::show(b, M.globals[g->slot]);
                if (a != b) mc::fail("global %s is %s at the end, expected %s\n--- program\n%s\n", g->name.c_str(), a.c_str(), b.c_str(), clip(src).c_str());
            }
        return true;
    }
};

// Compares implementation and reference on one program. Returns true when it was also run.
inline bool compare(const string &src, const Opt &o = Opt()) {
    Duo D(o);
    return D.compile(src) && D.run();
}

}  // namespace df
