// P42: breaking into the debugger shows what is executed and changes nothing.
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
using std::string;
// ---------------------------------------------------------------- what is typed and printed
static void capture() {
    static bool done = false;
    if (done) return;
    done = true;
    fflush(stdout);
    int fd = memfd_create("out", 0);
    dup2(fd, 1);
    close(fd);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
}
static string *typedText = nullptr;
static void prepare(const string &typed) {
    capture();
    fflush(stdout);
    if (ftruncate(1, 0)) mc::fail("no output file");
    lseek(1, 0, SEEK_SET);
    static FILE *in = nullptr;
    if (in) fclose(in);
    delete typedText;
    typedText = new string(typed.empty() ? string("x") : typed);
    in = fmemopen(&(*typedText)[0], typedText->size(), "rb");
    if (typed.empty()) fgetc(in);
    stdin = in;
}
static string printed() {
    fflush(stdout);
    struct stat st;
    fstat(1, &st);
    string s((size_t)st.st_size, 0);
    if (pread(1, &s[0], s.size(), 0) != (ssize_t)s.size()) mc::fail("cannot read the output");
    return s;
}
// ---------------------------------------------------------------- the value of a stack slot, as printing documents it
static string repr(Tiny_Value v) {
    char b[512];
    switch (v.type) {
        case TINY_VAL_NULL: return "<null>";
        case TINY_VAL_BOOL: return Tiny_ToBool(v) ? "true" : "false";
        case TINY_VAL_INT: return I((long long)Tiny_ToInt(v));
        case TINY_VAL_FLOAT: snprintf(b, sizeof b, "%f", Tiny_ToFloat(v)); return b;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return "\"" + string(Tiny_ToString(v), Tiny_StringLen(v)) + "\"";
        case TINY_VAL_STRUCT: {
            string s = "struct {";
            for (int i = 0, n = shim_field_count(v); i < n; ++i) s += (i ? ", " : "") + repr(Tiny_GetField(v, i));
            return s + "}";
        }
        default: return "?";
    }
}
// ---------------------------------------------------------------- programs
// BREAK is where the debugger is entered.
static const string PRE = "struct P { a: int b: str }\nfunc stop(n: int): int { BREAK return n + 1 }\nfunc inc(n: int): int { return n + 1 }\nfunc twice(n: int): int { k := n * 2 if n > 3 { BREAK } return k }\nfunc deep(n: int): int { if n < 1 { BREAK return 100 } t := deep(n - 1) return t + n }\n";
static const std::vector<string> BODY = {
    "BREAK out(1) x := 2 out(x + 3)",
    "x := 1 BREAK x = x + 41 y := x * 2 out(y)",
    "out(stop(5)) out(1)",
    "x := 3 + stop(4) * 2 out(x)",
    "for i := 0; i < 3; i += 1 { out(i) BREAK }",
    "i := 0 while true { i += 1 if i == 2 { BREAK continue } if i > 3 { break } out(i) }",
    "p := new P{1, \"one\"} BREAK p.a = 5 out(p.a, p.b)",
    "s := \"lit\" BREAK s = strcat(s, \"more\") out(s, strlen(s))",
    "BREAK out(deep(3))",
    "out(twice(2), twice(5), twice(1))",
    "x := 0.5 BREAK x *= 3.0 b := x > 1.0 && true out(b, x)",
    "BREAK",
    "out(1) BREAK",
    "BREAK BREAK out(2)",
    "func h(a: str, p: P): str { l := strcat(a, \"l\") BREAK q := new P{2, strcat(l, p.b)} return q.b } x := h(strcat(\"a\", \"b\"), new P{1, strcat(\"c\", \"d\")}) for i := 0; i < 12; i += 1 { x = strcat(x, \"e\") } out(x)",
    "func h(n: int, s: str): str { if n < 1 { BREAK return strcat(s, \"!\") } return h(n - 1, strcat(s, \"r\")) } for i := 0; i < 3; i += 1 { out(h(i, strcat(\"s\", \"t\"))) }",
    "BREAK out(call_function(get_function_index(\"inc\"), 6)) out(7)",
    "out(call_function(get_function_index(\"inc\"), call_function(get_function_index(\"inc\"), 2))) BREAK out(8)",
    "a := \"1\" for i := 0; i < 6; i += 1 { a = strcat(a, a) if i % 2 == 0 { BREAK } } out(strlen(a))",
    "func f(a: int, b: str, c: bool): str { d := a BREAK e := strcat(b, \"z\") if c { return e } return b } out(f(1, \"x\", true), f(2, \"y\", 1 == 2))",
    "out(if stop(1) == 2 \"yes\" else \"no\") n: any = null BREAK out(n == null)",
    "func h(a: str, p: P): str { BREAK return strcat(a, p.b) } x := h(strcat(\"a\", \"b\"), new P{1, strcat(\"c\", \"d\")}) x = \"\" tidy() out(strcat(x, \"e\")) tidy() out(2)",
    "func h(n: int, s: str): str { if n < 1 { BREAK return strcat(s, \"!\") } t := h(n - 1, strcat(s, \"r\")) tidy() BREAK return strcat(t, \"u\") } x := h(2, strcat(\"s\", \"t\")) x = strcat(\"\", \"y\") tidy() out(x) tidy() out(1)",
    "BREAK\n\n  out(get_executing_line())\n",
};
static const std::vector<string> CMD = {"s", "top2", "c", "", "x", "S", "top2 ", "ss", "top", " s", "c ", "cc"};
static string text(const string &p, const string &brk) { string s = p; for (size_t k; (k = s.find("BREAK")) != string::npos;) s.replace(k, 5, brk); return s; }
// One cycle as it would be shown before it is executed.
struct Shown { string instr, top; bool breaks; };
struct Trace { std::vector<Shown> cycles; string log; };
static TINY_FOREIGN_FUNCTION(fNop) { return Tiny_Null; }
static TINY_FOREIGN_FUNCTION(fTidy) { thread->maxNumObjects = 0; return Tiny_Null; }    // collects at the next cycle
static void bindAll(Tiny_State *s) { df::stdOpt().binder(s); Tiny_BindFunction(s, "nop", fNop); Tiny_BindFunction(s, "tidy", fTidy); }
struct Prog {
    df::Impl X, Y;        // the program with the debugger, and one which calls a function which does nothing instead
    Trace tr;
    string source;
    explicit Prog(const string &body) : X(bindAll), Y(bindAll), source(body) {
        if (!X.compile(text(body, "debug_break()"))) mc::fail("rejected: %s\n%s", X.err.c_str(), body.c_str());
        if (!Y.compile(text(body, "nop()"))) mc::fail("rejected: %s\n%s", Y.err.c_str(), body.c_str());
        Y.start();
        if (!Y.run(20000)) mc::fail("does not end");
        tr.log = Y.log.out;
        // With nothing typed every break goes on at once.
        Tiny_StateThread t;
        df::Log log;
        Tiny_InitThread(&t, X.s);
        t.userdata = &log;
        Tiny_StartThread(&t);
        prepare("");
        while (!Tiny_IsThreadDone(&t)) {
            int pc = t.pc;
            char b[512] = {0};
            Tiny_DisasmOne(X.s, &pc, b, sizeof b);
            Shown c;
            c.instr = b;
            for (int i = 1; i <= 2 && t.sp - i >= 0; ++i) c.top += repr(t.stack[t.sp - i]) + "\n";
            size_t before = printed().size();
            Tiny_ExecuteCycle(&t);
            c.breaks = printed().size() != before;
            tr.cycles.push_back(c);
        }
        if (log.out != tr.log) mc::fail("with the debugger left at once: %s\nwithout: %s\n%s", log.out.c_str(), tr.log.c_str(), body.c_str());
        Tiny_DestroyThread(&t);
    }
};
// What a session prints; false if it is outside the domain (left without c after stepping).
static bool session(const Trace &t, const string &typed, string &want) {
    size_t at = 0, n = t.cycles.size();
    size_t in = 0;
    auto line = [&](string &l) {                            // as fgets with room for 255 characters
        if (in >= typed.size()) return false;
        size_t e = typed.find('\n', in);
        e = e == string::npos ? typed.size() : e + 1;
        if (e - in > 255) e = in + 255;
        l = typed.substr(in, e - in);
        in = e;
        return true;
    };
    auto next = [&](size_t from) { while (from < n && !t.cycles[from].breaks) ++from; return from < n ? from + 1 : n; };
    at = next(0);
    if (at == n) return true;
    // The prompts which are open: one reached by a step is inside that of the step; one which went on ends with the program.
    struct Level { bool stepped, wentOn; };
    std::vector<Level> open{{false, false}};
    auto enter = [&] { at = next(at); if (at < n) open.push_back({false, false}); };
    while (!open.empty()) {
        if (open.back().wentOn) { open.pop_back(); continue; }
        bool over = at >= n;
        want += (over ? string("PC out of bounds") : t.cycles[at].instr) + "\n> ";
        string l;
        if (!line(l)) {
            if (over) { open.pop_back(); continue; }
            for (auto &x : open) if (x.stepped) return false;
            open.pop_back();
            enter();                                          // one after the other
            continue;
        }
        if (l == "top2\n") { if (over) return false; want += t.cycles[at].top; }
        else if (l == "s\n") {
            open.back().stepped = true;
            if (over) continue;
            bool again = t.cycles[at++].breaks;
            if (again) open.push_back({false, false});
        }
        else if (l == "c\n") { open.back().wentOn = true; if (!over) enter(); }
        else want += "no such command\n";
    }
    return true;
}
static void debugged(Prog &p, const string &typed, int gc) {
    string want;
    if (!session(p.tr, typed, want)) { mc::noteSkip(); return; }
    Tiny_StateThread t;
    df::Log log;
    Tiny_InitThread(&t, p.X.s);
    t.userdata = &log;
    Tiny_StartThread(&t);
    prepare(typed);
    long cycles = 0;
    while (!Tiny_IsThreadDone(&t)) {
        if (gc) t.maxNumObjects = 0;
        if (++cycles > 20000) mc::fail("does not end");
        if (!Tiny_ExecuteCycle(&t)) break;
        mc::noteState(mc::hash(typed) ^ (uint64_t)t.pc * 31 ^ (uint64_t)cycles << 20);
    }
    string got = printed();
    string what = "typed " + df::clip(typed) + "\n--- program\n" + p.source;
    if (got != want) mc::fail("the debugger prints\n%s\nexpected\n%s\n%s", df::clip(got).c_str(), df::clip(want).c_str(), what.c_str());
    if (log.out != p.tr.log) mc::fail("the program does\n%s\nundisturbed it does\n%s\n%s", log.out.c_str(), p.tr.log.c_str(), what.c_str());
    if (t.fc != 0) mc::fail("%d frames are left\n%s", t.fc, what.c_str());
    // The host goes on using the thread.
    int inc = Tiny_GetFunctionIndex(p.X.s, "inc"), sp = t.sp;
    for (int k = 0; inc >= 0 && k < 2; ++k) {
        t.maxNumObjects = 0;
        Tiny_Value arg = Tiny_NewInt(41), r = Tiny_CallFunction(&t, inc, &arg, 1);
        if (r.type != TINY_VAL_INT || Tiny_ToInt(r) != 42 || t.sp != sp) mc::fail("a function called afterwards gives something else\n%s", what.c_str());
    }
    Tiny_DestroyThread(&t);
    mc::noteTransitions((uint64_t)cycles);
    mc::noteTrace();
}
static Prog &prog(size_t k) {
    static Prog *P[64];
    if (!P[k]) P[k] = new Prog(PRE + BODY[k]);
    return *P[k];
}
static string commands(uint64_t i, int k, const std::vector<string> &c) { string s; for (; k--; i /= c.size()) s += c[i % c.size()] + "\n"; return s; }
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        bool th = mc::thorough;
        static const std::vector<string> FEW = {"s", "top2", "c"};
        uint64_t nb = BODY.size();
        // every session of a few commands, ended by going on, or with nothing more typed
        int k = th ? 12 : 10;
        for (int n = 0; n <= k; ++n)
            mc::family("sessions-" + I(n), mc::power(3, n) * nb, [n, nb](uint64_t i) {
                string s = commands(i / nb, n, FEW);
                Prog &p = prog(i % nb);
                debugged(p, s, 0);
                if (n < 6) { debugged(p, s + "c\n", 0); debugged(p, s + "c\n", 1); debugged(p, s + rep("c\n", 20), 0); debugged(p, s + rep("s\n", 40) + "top2\n" + rep("c\n", 20), 1); }
            }, [n, nb](uint64_t i) { return commands(i / nb, n, FEW) + BODY[i % nb]; });
        int m = th ? 4 : 3;
        mc::family("words", mc::power(CMD.size(), m) * nb, [m, nb](uint64_t i) { debugged(prog(i % nb), commands(i / nb, m, CMD) + "c\n", 0); });
        // from every break, step the whole way with a look at the stack at every stop, and one step further
        mc::family("steps", nb * 150 * 4, [nb](uint64_t i) {
            uint64_t n = i / nb % 150, how = i / nb / 150;
            string s;
            for (uint64_t j = 0; j < n; ++j) s += how & 1 ? "top2\ns\n" : "s\n";
            debugged(prog(i % nb), s + (how & 2 ? "top2\n" : "") + rep("c\n", 30), (int)(n % 2));
        }, [nb](uint64_t i) { return I((long)(i / nb % 150)) + " steps: " + BODY[i % nb]; });
        mc::family("line-lengths", 600 * 3, [](uint64_t i) {
            string l(i / 3, i % 3 == 0 ? 's' : i % 3 == 1 ? ' ' : 'c');
            debugged(prog(1), "top2\n" + l + "\ns\n" + l + "s\nc\n", 0);
            debugged(prog(1), l + "top2\nc", 0);
        });
        // values of every kind on top of the stack
        mc::family("values", 24 * 24, [](uint64_t i) {
            static const char *V[] = {"0", "1", "-1", "9223372036854775807", "0.5", "-123456.789", "true", "1 == 2", "null", "\"\"", "\"lit\"", "strcat(\"h\", \"eap\")", "\"q\\\"uote\"", "new P{1, \"x\"}", "new P{2, strcat(\"y\", \"z\")}", "new W{new P{3, \"in\"}, null}",
                                      "new W{new P{4, \"\"}, 5}", "hs(\"heap\")", "cast(6, any)", "'c'", "\"%i%s%q\"", "\"two\\nlines\"", "1.0 / 0.0", "new W{new P{-1, \"%%\"}, new P{7, \"deep\"}}"};
            Prog p("struct P { a: int b: str } struct W { p: P x: any } func v(a: any, b: any): int { debug_break() return 3 } " + string("x := 1 + v(") + V[i % 24] + ", " + V[i / 24] + ") BREAK dump(" + V[i / 24] + ", " + V[i % 24] + ") BREAK out(x)");
            for (const char *s : {"top2\nc\ntop2\nc\n", "top2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\ns\ntop2\nc\ns\ntop2\ns\ntop2\ns\ntop2\nc\nc\n"}) debugged(p, s, 0);
        });
        // a string which is too long to be shown
        mc::family("long-strings", 700, [](uint64_t i) {
            Prog p("BREAK x := \"" + string(i, 'w') + "\" BREAK out(x)");
            debugged(p, "s\ntop2\ns\ntop2\nc\ntop2\nc\n", 0);
        });
    });
}
