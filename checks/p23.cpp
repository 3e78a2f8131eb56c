// P23: disassembly. Every listing is checked against the execution: each executed instruction has to
// be one of the listing, do what its description says, and be followed by the one listed next.
#include "stdref.hpp"
#include "gen.hpp"
#include "corpus.hpp"
#include <map>
using namespace gen;

struct Line { int pc, next; string text, op, rest; };
struct Listing {
    std::vector<Line> lines;
    std::map<int, int> at;
    const Line *find(int pc) const { auto i = at.find(pc); return i == at.end() ? nullptr : &lines[i->second]; }
};
static df::Opt opt;
static const char *FILE_NAME = "main";
static string one(const Tiny_State *s, int *pc, size_t room, bool *ok) {
    char *buf = (char *)malloc(room ? room : 1);          // exactly as large as announced
    memset(buf, 'Z', room ? room : 1);
    *ok = Tiny_DisasmOne(s, pc, buf, room);
    string t;
    if (room) {
        size_t n = strnlen(buf, room);
        if (n == room) mc::fail("no terminator in a buffer of %zu bytes", room);
        t.assign(buf, n);
    } else if (*buf != 'Z') mc::fail("wrote to an empty buffer");
    free(buf);
    return t;
}
static Listing list(const Tiny_State *s, const string &src, bool rooms = false) {
    Listing L;
    int pc = 0, before = -1;
    while (pc >= 0) {
        if (pc <= before) mc::fail("the disassembly goes from position %d to %d\n%s", before, pc, df::clip(src).c_str());
        before = pc;
        bool ok;
        int next = pc;
        string t = one(s, &next, 4000, &ok);
        if (!ok) mc::fail("position %d is described as an error: %s\n%s", pc, t.c_str(), df::clip(src).c_str());
        Line l{pc, next, t};
        string head = I(pc) + " (";       // generated code has a file name of its own
        size_t tab = t.find("\t", t.find(")\t"));
        if (tab == string::npos || t.compare(0, head.size(), head)) mc::fail("position %d is described as %s\n%s", pc, t.c_str(), df::clip(src).c_str());
        l.op = t.substr(tab + 1);
        size_t sp = l.op.find(' ');
        if (sp != string::npos) { l.rest = l.op.substr(sp + 1); l.op.resize(sp); }
        if (l.op.empty()) mc::fail("position %d is described as %s", pc, t.c_str());
        if (rooms)
            for (size_t r = 0; r <= t.size() + 2; ++r) {
                int q = pc;
                string u = one(s, &q, r, &ok);
                if (r && u != t.substr(0, r - 1)) mc::fail("with %zu bytes the description of %s is %s", r, t.c_str(), u.c_str());
                if (ok && q != next) mc::fail("with %zu bytes the next position after %d is %d, not %d", r, pc, q, next);
            }
        L.at[pc] = (int)L.lines.size();
        L.lines.push_back(l);
        pc = next;
    }
    if (L.lines.back().op != "HALT") mc::fail("the disassembly ends with %s\n%s", L.lines.back().text.c_str(), df::clip(src).c_str());
    for (auto &l : L.lines) {
        int to = -1;
        if (l.op == "GOTO" || l.op == "GOTOZ") to = atoi(l.rest.c_str());
        if (l.op == "CALL") to = atoi(l.rest.c_str() + l.rest.find('(') + 1);
        if (to >= 0 && !L.find(to)) mc::fail("%s leads to a position which is not in the disassembly\n%s", l.text.c_str(), df::clip(src).c_str());
    }
    for (int bad : {-1, -100, L.lines.back().pc + 1, L.lines.back().pc + 1000}) {
        bool ok;
        int q = bad;
        string t = one(s, &q, 100, &ok);
        if (ok || t.empty()) mc::fail("position %d outside of the program is described as %s", bad, t.c_str());
    }
    return L;
}
static string val(Tiny_Value v) { string s; df::showT(s, v, 1); return s; }
static bool same(Tiny_Value a, Tiny_Value b) { return a.type == b.type && Tiny_AreValuesEqual(a, b) || (a.type == b.type && val(a) == val(b)); }
// Runs the program instruction by instruction along the listing.
static void follow(df::Impl &Im, const Listing &L, const string &src) {
    auto &t = Im.t;
    long n = 0;
    for (;; ++n) {
        if (n > 3000000) mc::fail("does not end\n%s", df::clip(src).c_str());
        const Line *l = L.find(t.pc);
        if (!l) mc::fail("execution is at position %d, which the disassembly does not visit\n%s", t.pc, df::clip(src).c_str());
        auto wrong = [&](const string &w) { mc::fail("%s: %s\n%s", l->text.c_str(), w.c_str(), df::clip(src).c_str()); };
        const char *f; int line;
        Tiny_GetExecutingFileLine(&t, &f, &line);
        string head = I(l->pc) + " (" + (f ? f : "") + ":" + I(line) + ")\t";
        if (f && l->text.compare(0, head.size(), head)) wrong(string("executes line ") + f + ":" + I(line));
        int sp = t.sp, fc = t.fc, fp = t.fp;
        Tiny_Value top = sp ? t.stack[sp - 1] : Tiny_Null, below = sp > 1 ? t.stack[sp - 2] : Tiny_Null, field = Tiny_Null;
        const string &op = l->op, &r = l->rest;
        int arg = atoi(r.c_str());
        if (op == "STRUCT_GET") field = Tiny_GetField(top, arg);
        size_t out = Im.log.out.size();
        bool go = Tiny_ExecuteCycle(&t);
        uint64_t h[3] = {mc::hash(src), (uint64_t)l->pc, (uint64_t)n};
        mc::noteState(mc::hash(h, sizeof h));
        Tiny_Value now = t.sp ? t.stack[t.sp - 1] : Tiny_Null;
        auto moved = [&](int d) { if (t.sp != sp + d) wrong("changed the stack by " + I(t.sp - sp)); };
        auto pushed = [&](const string &w) { moved(1); if (val(now) != w) wrong("pushed " + val(now)); };
        int next = l->next;
        if (op == "PUSH_NULL") pushed("N");
        else if (op == "PUSH_NULL_N") { moved(arg); for (int k = 0; k < arg; ++k) if (!Tiny_IsNull(t.stack[sp + k])) wrong("pushed something"); }
        else if (op == "PUSH_TRUE") pushed("B1");
        else if (op == "PUSH_FALSE") pushed("B0");
        else if (op == "PUSH_0") pushed("I0");
        else if (op == "PUSH_1") pushed("I1");
        else if (op == "PUSH_CHAR") { moved(1); if (now.type != TINY_VAL_INT || (r.size() > 1 && (char)Tiny_ToInt(now) != (r[1] == '\'' && r.size() == 2 ? 0 : r[1]))) wrong("pushed " + val(now)); }
        else if (op == "PUSH_INT") pushed("I" + r);
        else if (op == "PUSH_FLOAT") { moved(1); char b[60]; snprintf(b, sizeof b, "%g", Tiny_ToFloat(now)); if (r != b) wrong("pushed " + val(now)); }
        else if (op == "PUSH_STRING" || op == "PUSH_STRING_FF") {
            moved(1);
            if (now.type != TINY_VAL_CONST_STRING) wrong("pushed " + val(now));
            string want = I(arg) + " (\"" + Tiny_ToString(now) + "\")";
            if (r != want.substr(0, r.size()) || (r.size() < want.size() && l->text.size() < 3999)) wrong("pushed " + val(now));
        }
        else if (op == "PUSH_STRUCT") { moved(1 - arg); if (now.type != TINY_VAL_STRUCT || shim_field_count(now) != arg) wrong("pushed " + val(now)); }
        else if (op == "STRUCT_GET") { moved(0); if (!same(now, field)) wrong("read " + val(now)); }
        else if (op == "STRUCT_SET") { moved(-2); if (!same(Tiny_GetField(top, arg), below)) wrong("stored " + val(Tiny_GetField(top, arg))); }
        else if (op == "LOG_NOT" || op == "ADD1" || op == "SUB1") moved(0);
        else if (op == "ADD" || op == "SUB" || op == "MUL" || op == "DIV" || op == "MOD" || op == "OR" || op == "AND" || op == "SHIFT_LEFT" || op == "SHIFT_RIGHT" || op == "EQU") moved(-1);
        else if (op == "LT" || op == "LTE" || op == "GT" || op == "GTE") {
            moved(-1);
            if (top.type == TINY_VAL_INT && below.type == TINY_VAL_INT) {
                Tiny_Int a = Tiny_ToInt(below), b = Tiny_ToInt(top);
                if (Tiny_ToBool(now) != (op == "LT" ? a < b : op == "LTE" ? a <= b : op == "GT" ? a > b : a >= b)) wrong("compared otherwise");
            }
        }
        else if (op == "SET") { moved(-1); if (!same(Tiny_GetGlobal(&t, arg), top)) wrong("stored otherwise"); }
        else if (op == "GET") { moved(1); if (!same(Tiny_GetGlobal(&t, arg), now)) wrong("read otherwise"); }
        else if (op == "GETLOCAL" || op == "GETLOCAL_W") { moved(1); if (!same(t.stack[fp + arg], now)) wrong("read otherwise"); }
        else if (op == "SETLOCAL") { moved(-1); if (!same(t.stack[fp + arg], top)) wrong("stored otherwise"); }
        else if (op == "GOTO") { moved(0); next = arg; }
        else if (op == "GOTOZ") { moved(-1); if (!Tiny_ToBool(top)) next = arg; }
        else if (op == "CALL") { if (t.fc != fc + 1) wrong("did not call"); next = atoi(r.c_str() + r.find('(') + 1); }
        else if (op == "CALLF") {
            int nargs = atoi(r.c_str() + r.rfind('(') + 1);
            moved(-nargs);
            string name = r.substr(0, r.rfind('('));
            string logged = Im.log.out.substr(out);
            static const char *LOGGED[] = {"out", "oi", "ob", "of", "os", "ti", "tb", "tf", "ts", "ta"};
            for (auto g : LOGGED) if ((name == g) != (logged.compare(0, strlen(g) + 1, string(g) + "(") == 0)) wrong("called " + logged);
        }
        else if (op == "RETURN" || op == "RETURN_VALUE") { if (t.fc != fc - 1) wrong("did not return"); next = -2; }
        else if (op == "GET_RETVAL") moved(1);
        else if (op == "HALT") next = -1;
        if (op != "CALL" && op != "RETURN" && op != "RETURN_VALUE" && (t.fc != fc || t.fp != fp)) wrong("changed the frame");
        if (next != -2 && t.pc != next) wrong("execution goes to " + I(t.pc));
        if (!go || t.pc < 0) break;
    }
    mc::noteTransitions(n);
    mc::noteTrace();
    mc::noteRun();
}
static void run(const std::vector<string> &units, bool rooms = false, const string &fails = "", bool mustAccept = true) {
    df::Impl Im(opt.binder);
    string src;
    for (auto &u : units) {
        src += u + "\n";
        if (!Im.compile(u, FILE_NAME) && mustAccept) mc::fail("rejected: %s\n%s", Im.err.c_str(), df::clip(src).c_str());
        if (!Im.err.empty()) return;
    }
    Listing L = list(Im.s, src, rooms);
    if (!fails.empty()) {
        if (Im.compile(fails)) return;
        Listing M = list(Im.s, src);
        if (L.lines.size() != M.lines.size()) mc::fail("a failed compilation changes the disassembly");
        for (size_t k = 0; k < L.lines.size(); ++k) if (L.lines[k].text != M.lines[k].text) mc::fail("a failed compilation changes the disassembly from %s to %s", L.lines[k].text.c_str(), M.lines[k].text.c_str());
    }
    Im.start();
    follow(Im, L, src);
}
static const std::vector<string> &U = corpus::units();
// Snippets with every instruction, moved through all alignments by what precedes them.
static const std::vector<string> SNIP = {
    "out(5, 1000000, 9223372036854775807, 0, 1, 'c', 255, 256, -1, 127, 128)", "out(1.5, 0.0, 1000000.0, 123456.789)", "out(\"text\", \"\", \"with \\\"quote\\\" (paren) %s %d\")", "out(true, false, null)",
    "x@ := 1 x@ += 1 x@ -= 1 x@ += 2 x@ = x@ + 1 - 1 out(x@)", "out(ti(1) < 2, ti(1) <= 2, ti(1) > 2, ti(1) >= 2, ti(1) == 2, ti(1) != 2, !tb(true))",
    "out(ti(9) + 4, ti(9) - 4, ti(9) * 4, ti(9) / 4, ti(9) % 4, ti(9) & 4, ti(9) | 4, ti(9) << 4, ti(9) >> 1)", "if tb(true) { oi(1) } else { oi(2) } if tb(false) { oi(3) } else { oi(4) }",
    "n@ := 0 while n@ < 3 { n@ += 1 if n@ == 2 { continue } oi(n@) }", "for i@ := 0; i@ < 4; i@ += 1 { if i@ == 3 { break } oi(i@) }",
    "struct S@ { a: int b: str c: any } s@ := new S@{1, \"b\", null} s@.a = 7 s@.c = s@ out(s@.a, s@.b)", "func f@(a: int, b: int): int { c := a d := b c += d return c } oi(f@(3, 4))", "func g@() { oi(6) } g@() g@()",
    "func h@(n: int): int { if n <= 1 { return 1 } return n * h@(n - 1) } oi(h@(6))", "ob(tb(true) && tb(false) || tb(true))", "oi(if tb(true) 3 else 4) os(if tb(false) \"a\" else \"b\")", "K@ :: 5 L@ :: \"l\" M@ :: 2.5 out(K@, L@, M@)", "5->oi() out(-ti(5), -2.5)",
};
static const std::vector<string> PAD = {"", "out()", "oi(1)", "oi(1) oi(1)", "ob(true)", "oi(300)", "of(1.5)", "os(\"p\")", "p := 1", "out(1, 1, 1)", "out(true, true)", "func q() { }", "func q() { } q()", "func q(a: int) { b := a c := b } q(1)"};
static string many(uint64_t i) {
    mc::Digits d(i);
    int n = (int)d(mc::thorough ? 700 : 300), kind = (int)d(6);
    string s;
    if (kind == 0) for (int k = 0; k < n; ++k) s += "os(\"s" + I(k) + "\")\n";
    if (kind == 1) for (int k = 0; k < n; ++k) s += "v" + I(k) + " := " + I(k * 77) + " oi(v" + I(k / 2) + ")\n";
    if (kind == 2) { n = n % 100; s = "func f() { "; for (int k = 0; k < n; ++k) s += "v" + I(k) + " := " + I(k) + " oi(v" + I(k) + ")\n"; s += "} f()"; }
    if (kind == 3) { for (int k = 0; k < n; ++k) s += "func f" + I(k) + "(a: int): int { return a + " + I(k) + " }\n"; if (n) s += "oi(f0(1)) oi(f" + I(n - 1) + "(2))"; }
    if (kind == 4) { n = n % 254 + 1; s = "struct W { "; for (int k = 0; k < n; ++k) s += "a" + I(k) + ": int "; s += "} w := new W{"; int m = n < 100 ? n : 0; for (int k = 0; k < m; ++k) s += I(k) + ", "; s = m ? s + "} w.a" + I(n - 1) + " = 5 oi(w.a" + I(n - 1) + ")" : "out(1)"; }
    if (kind == 5) { s = "if tb(true) { "; for (int k = 0; k < n; ++k) s += "oi(" + I(k) + ") "; s += "}"; }
    return s;
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        uint64_t ns = SNIP.size(), np = PAD.size(), nu = U.size();
        auto at = [](const string &t, int k) { return sub(t, "@", I(k)); };
        mc::family("units", nu, [](uint64_t i) { run({U[i]}, false); }, [](uint64_t i) { return U[i]; });
        mc::family("unit-pairs", nu * nu * 2, [nu](uint64_t i) {
            size_t a = i % nu, b = i / nu % nu;
            if (a == b) return;
            if (i / nu / nu) run({U[a], U[b]}); else run({U[a] + "\n" + U[b]});
        });
        mc::family("padded", np * np * ns, [=](uint64_t i) {
            string p = PAD[i % np], q = sub(sub(PAD[i / np % np], "q(", "q2("), "p ", "p2 ");
            run({p + "\n" + q + "\n" + at(SNIP[i / np / np], 0)}, i % 7 == 0);
        }, [=](uint64_t i) { return PAD[i % np] + " | " + PAD[i / np % np] + " | " + SNIP[i / np / np]; });
        mc::family("sequences", mc::power(ns, mc::thorough ? 3 : 2), [=](uint64_t i) {
            std::vector<string> u;
            string s;
            for (int k = 0; k < (mc::thorough ? 3 : 2); ++k) { u.push_back(at(SNIP[i % ns], k)); s += u.back() + "\n"; i /= ns; }
            run({s});
            run(u);
            run({"func all() {\n" + sub(sub(at(SNIP[0], 1), "struct", "struct"), "@", "1") + "\n}\nall()\n" + s});
        });
        mc::family("rooms", ns + nu, [=](uint64_t i) { run({i < ns ? at(SNIP[i], 0) : U[i - ns]}, true); });
        mc::family("many", (mc::thorough ? 700 : 300) * 6, [](uint64_t i) { run({many(i)}); }, [](uint64_t i) { return df::clip(many(i), 300); });
        mc::family("long-strings", 1200, [](uint64_t i) { run({"os(\"" + string(i * 4, 's') + "\") oi(7)"}, i < 40); });
        mc::family("chars", 128, [](uint64_t i) { char c = (char)i; if (c == 0 || c == '\'' || c == '\\') return; run({string("oi('") + c + "') out('\\n', '\\t', '" + c + "')"}, true); });
        mc::family("after-failures", nu * nu, [=](uint64_t i) { run({U[i % nu]}, false, U[i / nu] + "\nnosuch(1)\n"); });
        mc::family("names", 600, [](uint64_t i) {
            string name(i, 'n');
            df::Impl Im(opt.binder);
            if (!Im.compile("oi(1) os(\"x\")", name.c_str())) mc::fail("rejected %s", Im.err.c_str());
            FILE_NAME = name.c_str();
            Listing L = list(Im.s, name, i < 60);
            Im.start();
            follow(Im, L, name);
        });
    });
}
