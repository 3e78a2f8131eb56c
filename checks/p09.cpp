// P09: unreachable objects are freed, finalizers run exactly once.
#include <set>
#include <memory>
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
using df::Val;
// The reference's live objects: what the globals reach.
static int liveR(df::RefEnv &R, std::set<const void *> &seen) {
    std::set<const void *> heapStr;
    for (auto &s : R.strs) heapStr.insert(&s);
    std::vector<Val> todo(R.M->globals.begin(), R.M->globals.end());
    while (!todo.empty()) {
        Val v = todo.back();
        todo.pop_back();
        if (v.t == Val::Str) { if (heapStr.count(v.s)) seen.insert(v.s); }
        else if (v.t == Val::Struct || v.t == Val::Native) {
            if (seen.insert(v.o).second) for (auto &f : v.o->fields) todo.push_back(f);
        }
    }
    return (int)seen.size();
}
static bool probed;
static TINY_FOREIGN_FUNCTION(fProbe) { thread->maxNumObjects = 0; probed = true; return Tiny_Null; }
// Called right after the collection a probe asked for.
static TINY_FOREIGN_FUNCTION(fCount) {
    df::Log *l = df::logOf(thread);
    if (!probed) return Tiny_Null;
    probed = false;
    l->out += "live=" + I(thread->numObjects) + " fin=";
    for (auto n : l->nats) l->out += I(n->finalized);
    l->out += ";";
    return Tiny_Null;
}
static df::Opt opt() {
    df::Opt o = df::stdOpt();
    auto b0 = o.binder;
    auto r0 = o.refBinder;
    o.checkGlobals = false;
    o.mustAccept = true;
    o.binder = [b0](Tiny_State *s) { b0(s); Tiny_BindFunction(s, "probe(): void", fProbe); Tiny_BindFunction(s, "count(): void", fCount); };
    o.refBinder = [r0](df::RefEnv &R) {
        r0(R);
        df::RefEnv *P = &R;
        R.S.bind("probe(): void", [](std::vector<Val> &) { probed = true; return Val{}; });
        R.S.bind("count(): void", [P](std::vector<Val> &) {
            if (!probed) return Val{};
            probed = false;
            std::set<const void *> seen;
            P->log += "live=" + I(liveR(*P, seen)) + " fin=";
            for (int id = 1; id < P->nextNat; ++id) {
                bool live = false;
                for (auto &n : P->nats) if (n.id == id && seen.count(&n)) live = true;
                P->log += live ? '0' : '1';
            }
            P->log += ";";
            return Val{};
        });
    };
    return o;
}
static const string DECL =
    "use array(\"any\") as array_any\n"
    "struct N { l: any r: any v: int }\n"
    "func mk(l: any, v: int): N { t := new N{l, hs(\"t\", v), v} u := new N{t, null, 0} return cast(u.l, N) }\n"
    "func ring(n: int): N { f := new N{null, null, 0} p := f for i := 0; i < n; i += 1 { q := new N{p, mknat(), i} p = q } f.l = p return p }\n";
static const string VARS = "s := hs(\"a\", 1) n := new N{null, null, 1} a := array_any() d := dict() b := box(null) h := mknat() w: any = null\n";
static std::vector<string> OPS;
static void mkOps() {
    const char *V[] = {"n", "a", "d", "b", "h"};
    for (string v : V) {
        OPS.push_back("n.l = cast(" + v + ", any)");
        OPS.push_back("array_any_push(a, " + v + ")");
        OPS.push_back("dict_put(d, hs(\"k\"), " + v + ")");
        OPS.push_back("setbox(b, " + v + ")");
        OPS.push_back("w = cast(" + v + ", any)");
    }
    for (string o : {"s = hs(s, 2)", "n = mk(h, 7)", "a = array_any(s, n, mknat())", "d = dict(hs(\"k\"), h, 4, b)", "b = box(w)", "h = mknat()", "w = null", "n = ring(2)", "n = ring(0)",
                     "dict_remove(d, hs(\"k\"))", "dict_clear(d)", "array_any_clear(a)", "n.l = n.r", "n.r = n.l", "if array_any_len(a) > 0 { w = array_any_pop(a) }", "if array_any_len(a) > 0 { w = array_any_shift(a) }",
                     "if array_any_len(a) > 0 { array_any_remove(a, 0) }", "array_any_push(a, 1) array_any_insert(a, 0, mknat()) array_any_remove(a, 0)", "w = unbox(b)",
                     "s = strcat(s, hs(\"z\"), \"c\")", "w = array_any_len(dict_keys(d))", "dict_put(d, n, b)", "dict_put(d, h, d)", "if array_any_len(a) > 0 { a[0] = w }",
                     "w = call_function(get_function_index(\"mk\"), cast(h, any), 3)", "array_any_resize(a, 3)", "array_any_resize(a, 1)", "w = new N{new N{hs(\"i\"), null, 1}, array_any(mknat()), 2}", "d = dict()", "b = box(box(mknat()))"})
        OPS.push_back(o);
}
static string text(bool always) {
    // globals only: what a collection must keep is what the globals reach
    string s = DECL + VARS;
    int n = (int)OPS.size();
    for (int i = 0; i < n; ++i) s += "func op" + I(i) + "() { " + OPS[i] + " }\n";
    s += "func step(o: int) {\n";
    for (int i = 0; i < n; ++i) s += string(i ? " else " : "") + "if o == " + I(i) + " { op" + I(i) + "() }\n";
    s += "}\no := nextop()\nwhile o >= 0 {\nstep(o)\n";
    s += always ? "probe() count()\n" : "if nextop() == 1 { probe() }\ncount()\n";
    s += "o = nextop()\n}\nprobe() count()\n";
    return s;
}
static df::Machine M[2];
static void finish(df::Duo &D) {
    // destroying the thread finalizes what is left, exactly once
    df::Impl &I = D.I;
    Tiny_DestroyThread(&I.t);
    I.threadUp = false;
    for (auto n : I.log.nats)
        if (n->finalized != 1) mc::fail("after destroying the thread the finalizer of native %d has run %d times\n", n->id, n->finalized);
}
static void go(int which, const std::vector<int> &q) {
    df::Machine &m = M[which];
    if (!m.text) {
        m.opt = opt();
        m.opt.gc = which ? INT_MAX : -1;
        m.text = [which] { return text(which == 0); };
    }
    probed = false;
    if (m.run(q)) finish(*m.d);
}
// With collections only where the mask says: gc is INT_MAX before every cycle, probes lower it.
static void masked(uint64_t i, int len) {
    int n = (int)OPS.size();
    uint64_t mask = i % (1ull << len);
    i >>= len;
    std::vector<int> q;
    for (int k = 0; k < len; ++k, i /= n) { q.push_back((int)(i % n)); q.push_back((int)((mask >> k) & 1)); }
    go(1, q);
}
// Programs stopped at every instruction: destroying the thread there finalizes everything once.
static void stopped(uint64_t i) {
    static df::Impl *I[64];
    int op = (int)(i % OPS.size());
    long at = (long)(i / OPS.size());
    static df::Opt o = opt();
    if (!I[0]) { I[0] = new df::Impl(o.binder); if (!I[0]->compile(text(true))) mc::fail("rejected"); }
    df::Impl &X = *I[0];
    if (X.threadUp) { Tiny_DestroyThread(&X.t); X.threadUp = false; }
    for (auto n : X.log.nats) delete n;
    X.log.nats.clear(); X.log.out.clear(); X.log.nextNat = 1;
    df::script = {op, 31 % (int)OPS.size(), op};
    df::scriptPos = 0;
    probed = false;
    X.start();
    long c = 0;
    while (c++ < at * 7 && Tiny_ExecuteCycle(&X.t)) mc::noteTransitions(1);
    for (auto n : X.log.nats) if (n->finalized > 1) mc::fail("native %d finalized twice", n->id);
    Tiny_DestroyThread(&X.t);
    X.threadUp = false;
    for (auto n : X.log.nats) if (n->finalized != 1) mc::fail("thread destroyed after %ld cycles: the finalizer of native %d has run %d times\n", c, n->id, n->finalized);
    mc::noteTrace();
}
// Long programs with bounded live data under the library's own policy.
static const int NBODY = 29;
static string longRun(uint64_t i) {
    mc::Digits d(i);
    static const char *BODY[] = {"x := hs(\"junk\", i)", "x := new N{x0, null, i} x0 = x x0.l = null", "x := ring(3)", "a = array_any(a0, mknat())", "d[hs(\"k\", i % 5)] = mknat()", "s = strcat(\"a\", int_to_str(i))", "w = pass(new N{w0, null, i})",
                                 "array_any_push(a0, mknat()) if array_any_len(a0) > 10 { array_any_clear(a0) }", "b = box(b) if i % 7 == 0 { b = box(null) }", "call_function(get_function_index(\"ring\"), 2)", "d[hs(\"r\", i)] = 1 dict_remove(d, hs(\"r\", i))", "x := substr(s, 0, 1) y := dict_keys(d)",
                                 "x := hs(\"\")", "x := substr(s0, 1, 1)", "x := strcat(\"\", \"\")", "x := int_to_str(i)", "x := box(null)", "x := mknat()", "x := dict()", "x := array_any()", "x := ints(i)", "x := dict_values(d)", "x := substr(s0, 0, -1)", "x := hs(\"a\", i)", "x := new J{i}",
                                 "x := \"const\" y := i * 2.5", "x := J_to_json(new J{i})", "x := delegate_str_str_call(h9, hs(\"q\"))", "hs(\"\") hs(\"dropped\")"};
    string body = BODY[d(NBODY)];
    int second = (int)d(NBODY + 1);
    if (second < NBODY && string(BODY[second]).find("x :=") == string::npos) body += " " + string(BODY[second]);
    return DECL + "use array(\"int\") as ints struct J { a: int } use json(\"J\") func h8(x: str): str { return strcat(x, \"r\") } use delegate(\"h8\") as mk9 h9 := mk9() func pass(x: any): any { return x } s0 := hs(\"abc\")\nx0 := new N{null, null, 0} a0 := array_any() w0: any = null\n" + VARS + "for i := 0; i < 3000; i += 1 { " + body + " }\n";
}
static void bounded(uint64_t i) {
    df::Opt o = opt();
    long blocks = 0;       // the library's own live allocations
    Tiny_Context cx{[](void *p, size_t n, void *u) -> void * {
        if (!n) { if (p) { --*(long *)u; free(p); } return nullptr; }
        if (!p) ++*(long *)u;
        return realloc(p, n);
    }, &blocks};
    df::Impl I(cx, o.binder);
    string src = longRun(i);
    if (!I.compile(src)) mc::fail("rejected %s\n%s", I.err.c_str(), src.c_str());
    Tiny_InitThreadWithContext(&I.t, I.s, cx);
    I.t.userdata = &I.log;
    I.threadUp = true;
    I.start();
    int worst = 0;
    long c = 0, b0 = blocks, most = 0;
    while (Tiny_ExecuteCycle(&I.t)) { if (I.t.numObjects > worst) worst = I.t.numObjects; if (blocks - b0 > most) most = blocks - b0; ++c; }
    mc::noteTransitions(c); mc::noteRun(); mc::noteTrace();
    mc::noteState(mc::hash(src) + worst);
    if (most > 600) mc::fail("%ld blocks allocated at once by the program although fewer than 100 objects are ever reachable\n%s\n", most, src.c_str());
    if (worst > 600) mc::fail("%d objects at once although fewer than 100 are ever reachable\n%s\n", worst, src.c_str());
}
// Natives of every sort a host can make: with and without an address, properties, callbacks.
namespace hn {
struct Sort { int addr, prop; };      // addr: none, an own one, one that is shared; prop: none, empty, mark, finalize, both
static int fins[5], marks[5], made[5];
template <int P> static void mark(void *) { ++marks[P]; }
template <int P> static void fin(Tiny_Context *, void *) { ++fins[P]; }
static const Tiny_NativeProp PROP[5] = {{"none", nullptr, nullptr}, {"empty", nullptr, nullptr}, {"mark", mark<2>, nullptr}, {"fin", nullptr, fin<3>}, {"both", mark<4>, fin<4>}};
static char own[4096], shared;
static int nOwn;
static TINY_FOREIGN_FUNCTION(fMk) {
    int k = (int)Tiny_ToInt(args[0]), p = k / 3;
    ++made[p];
    return Tiny_NewNative(thread, k % 3 == 0 ? nullptr : k % 3 == 1 ? (void *)(own + nOwn++ % 4096) : (void *)&shared, p ? &PROP[p] : nullptr);
}
static const char *PUT[] = {"x = cast(mkh(#), any)", "y = cast(mkh(#), any)", "mkh(#)", "array_any_push(a, mkh(#))"};
static const char *MOVE[] = {"x = y", "y = x", "x = null", "y = null", "x = new N{y, x, 0}", "array_any_clear(a)", "dict_put(d, 1, x)", "dict_clear(d)", "y = unbox(box(x))", "array_any_push(a, y)"};
static const int NOP = 15 * 4 + 10;
static string op(int k) { return k < 60 ? sub(PUT[k / 15], "#", I(k % 15)) : MOVE[k - 60]; }
static string text() {
    string s = "use array(\"any\") as array_any struct N { l: any r: any v: int } x: any = null y: any = null a := array_any() d := dict()\n";
    for (int k = 0; k < NOP; ++k) s += "func op" + I(k) + "() { " + op(k) + " }\n";
    return s + "func step(o: int) { call_function(get_function_index(strcat(\"op\", int_to_str(o)))) }\no := nextop() while o >= 0 { step(o) probe() check() o = nextop() }\n";
}
// The model: what x, y, a and d hold; a value is a native's sort, or a pair.
struct Obj { int prop; std::vector<std::shared_ptr<Obj>> f; };
typedef std::shared_ptr<Obj> Ref;
static Ref x, y, dv;
static std::vector<Ref> a;
static int alive[5];
static void visit(const Ref &r, std::set<Obj *> &seen) { if (!r || !seen.insert(r.get()).second) return; if (r->prop >= 0) ++alive[r->prop]; for (auto &f : r->f) visit(f, seen); }
static void apply(int k) {
    if (k < 60) {
        Ref n(new Obj{k % 15 / 3, {}});
        switch (k / 15) { case 0: x = n; break; case 1: y = n; break; case 3: a.push_back(n); break; }
        return;
    }
    switch (k - 60) {
        case 0: x = y; break; case 1: y = x; break; case 2: x = nullptr; break; case 3: y = nullptr; break;
        case 4: x = Ref(new Obj{-1, {y, x}}); break; case 5: a.clear(); break; case 6: dv = x; break; case 7: dv = nullptr; break; case 8: y = x; break; case 9: a.push_back(y); break;
    }
}
static std::vector<int> todo;
static size_t done;
static int lastMarks[5];
static TINY_FOREIGN_FUNCTION(fCheck) {
    apply(todo[done++]);
    memset(alive, 0, sizeof alive);
    std::set<Obj *> seen;
    visit(x, seen); visit(y, seen); visit(dv, seen); for (auto &r : a) visit(r, seen);
    for (int p = 0; p < 5; ++p) {
        if (p >= 3 && fins[p] != made[p] - alive[p]) mc::fail("after operation %zu the finalizer of natives '%s' has run %d times; %d were made and %d of them are reachable\n", done, PROP[p].name, fins[p], made[p], alive[p]);
        if ((p == 2 || p == 4) && marks[p] - lastMarks[p] < alive[p]) mc::fail("after operation %zu only %d of %d reachable natives '%s' were asked to protect what they refer to\n", done, marks[p] - lastMarks[p], alive[p], PROP[p].name);
        lastMarks[p] = marks[p];
    }
    mc::noteTransitions(1);
    return Tiny_Null;
}
static void run(const std::vector<int> &q) {
    static df::Impl *X;
    if (!X) {
        auto o = opt();
        X = new df::Impl([o](Tiny_State *s) { o.binder(s); Tiny_RegisterType(s, "hnat"); Tiny_BindFunction(s, "mkh(int): hnat", fMk); Tiny_BindFunction(s, "check(): void", fCheck); });
        if (!X->compile(text())) mc::fail("rejected: %s", X->err.c_str());
    }
    if (X->threadUp) { Tiny_DestroyThread(&X->t); X->threadUp = false; }
    X->log.out.clear();
    memset(fins, 0, sizeof fins); memset(marks, 0, sizeof marks); memset(made, 0, sizeof made); memset(lastMarks, 0, sizeof lastMarks);
    x = y = dv = nullptr; a.clear(); todo = q; done = 0; nOwn = 0;
    df::script = q; df::scriptPos = 0;
    X->start();
    Tiny_Run(&X->t);
    if (done != q.size()) mc::fail("%zu operations instead of %zu\n", done, q.size());
    Tiny_DestroyThread(&X->t);
    X->threadUp = false;
    for (int p = 3; p < 5; ++p) if (fins[p] != made[p]) mc::fail("after destroying the thread the finalizer of natives '%s' has run %d times; %d were made\n", PROP[p].name, fins[p], made[p]);
    mc::noteRun(); mc::noteTrace();
    mc::noteState(mc::hash(q.data(), q.size() * sizeof(int)));
}
}
// Next to nothing on the heap: collections which leave no object, one or two.
static const std::vector<string> FEW = {"w = null", "u = null", "w = cast(hs(\"a\", 1), any)", "u = cast(hs(\"b\", 2), any)", "w = u", "u = w", "w = cast(mknat(), any)", "w = cast(box(u), any)", "u = cast(new N{w, null, 1}, any)",
    "hs(\"dropped\")", "mknat()", "w = cast(array_any(), any)", "u = cast(dict(), any)", "w = cast(\"literal\", any)", "w = cast(strcat(\"x\", \"y\"), any)", "u = cast(5, any)"};
static void few(const std::vector<int> &q) {
    static df::Machine m;
    if (!m.text) {
        m.opt = opt();
        m.opt.gc = INT_MAX;
        m.text = [] {
            string s = DECL + "w: any = null u: any = null\n";
            int n = (int)FEW.size();
            for (int i = 0; i < n; ++i) s += "func op" + I(i) + "() { " + FEW[i] + " }\n";
            s += "func step(o: int) {\n";
            for (int i = 0; i < n; ++i) s += string(i ? " else " : "") + "if o == " + I(i) + " { op" + I(i) + "() }\n";
            return s + "}\no := nextop()\nwhile o >= 0 {\nif o == 100 { probe() } else { step(o) }\ncount()\no = nextop()\n}\nw = null u = null probe() count()\n";
        };
    }
    probed = false;
    if (m.run(q)) finish(*m.d);
}
static std::vector<int> fewSeq(uint64_t i, int len) {
    std::vector<int> q;
    uint64_t mask = i % (1ull << len);
    i >>= len;
    for (int k = 0; k < len; ++k, i /= FEW.size()) { q.push_back((int)(i % FEW.size())); if (mask >> k & 1) q.push_back(100); }
    return q;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        mkOps();
        int n = (int)OPS.size();
        auto desc = [n](uint64_t i) { return df::showSeq(mc::seqAt(n, i), OPS); };
        mc::family("probeEach", mc::seqCount(n, 3), [n](uint64_t i) { go(0, mc::seqAt(n, i)); }, desc);
        mc::family("probeSome", mc::power(n, 2) * 4, [](uint64_t i) { masked(i, 2); });
        if (mc::thorough) {
            mc::family("probeSome3", mc::power(n, 3) * 8, [](uint64_t i) { masked(i, 3); });
            for (int off = 0; off < 2; ++off)
                mc::family(off ? "length4b" : "length4a", mc::power(27, 4), [off](uint64_t i) { std::vector<int> q; for (int k = 0; k < 4; ++k, i /= 27) q.push_back((int)(i % 27) * 2 + off); go(0, q); });
        }
        mc::family("host-natives", mc::seqCount(hn::NOP, mc::thorough ? 4 : 3), [](uint64_t i) { hn::run(mc::seqAt(hn::NOP, i)); },
                   [](uint64_t i) { string o; for (int k : mc::seqAt(hn::NOP, i)) o += hn::op(k) + "; "; return o; });
        for (int len = 1; len <= (mc::thorough ? 4 : 3); ++len) {
            static const char *NM[] = {"", "few1", "few2", "few3", "few4", "few5"};
            uint64_t c = mc::power((int)FEW.size(), len) << len;
            mc::family(NM[len], c, [len](uint64_t i) { few(fewSeq(i, len)); },
                       [len](uint64_t i) { string o; for (int k : fewSeq(i, len)) o += (k == 100 ? string("collect") : FEW[k]) + "; "; return o; });
        }
        mc::family("stopped", OPS.size() * 120, stopped);
        mc::family("bounded", NBODY * (NBODY + 1), bounded, longRun);
    });
}
