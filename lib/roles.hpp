// One program whose threads take different roles; used by the isolation checks.
#pragma once
#include "stdref.hpp"
#include "gen.hpp"
namespace roles {
using std::string;
struct TLog : df::Log { int role = 0; std::vector<Tiny_Value> kept; };
static TINY_FOREIGN_FUNCTION(fRole) { return Tiny_NewInt(((TLog *)thread->userdata)->role); }
// The parts of the standard bindings which are per thread (no nextop, whose script is shared by design).
static TINY_FOREIGN_FUNCTION(fCallBack) {
    int f = Tiny_GetFunctionIndex(thread->state, Tiny_ToString(args[0]));
    return Tiny_CallFunction(thread, f, args + 1, count - 1);
}
static TINY_FOREIGN_FUNCTION(fWhere) {
    const char *file; int line;
    Tiny_GetExecutingFileLine(thread, &file, &line);
    df::logOf(thread)->out += "at " + std::to_string(line) + ";";
    return Tiny_Null;
}
static const char *DECL =
    "struct P { a: int n: any } struct J { x: int s: str }\n"
    "use array(\"int\") as ai use array(\"any\") as array_any use array(\"str\") as astr use json(\"J\") use delegate(\"inc\") as dinc\n"
    "C :: 7 CS :: \"const\"\n"
    "g := 0 gs := \"\" gp := new P{0, null} ga := ai() gd := dict()\n"
    "func inc(x: int): int { g += 1 return x + 1 }\n"
    "func dumpall() { dump(g, gs, gp, ga, gd) }\n"
    "func fib(n: int): int { if n < 2 { return n } return fib(n - 1) + fib(n - 2) }\n"
    "func list(n: int): P { p := new P{0, null} for i := 1; i < n; i += 1 { p = new P{i, p} } return p }\n";
// Bodies of the roles.
static const std::vector<string> &bodies() {
    static const std::vector<string> b = {
        "g = 1 g += C out(g)",
        "gs = hs(\"a\", g) out(gs)",
        "x := inc(4) out(x, g)",
        "gp.a = 5 gp.n = gp out(gp.a)",
        "ai_push(ga, 3) out(ga[0])",
        "gd[\"k\"] = 1 out(gd[\"k\"])",
        // longer
        "for i := 0; i < 3; i += 1 { gs = strcat(gs, \"r\", int_to_str(i)) g += i } out(gs, g)",
        "out(fib(3)) g = fib(2) where()",
        "p := list(3) s := 0 while p.a > 0 { s += p.a p = cast(p.n, P) } out(s) gp = p",
        "for i := 0; i < 4; i += 1 { ai_push(ga, 10 - i) } ai_sort(ga) out(ga[0], ga[3], ai_len(ga)) ai_clear(ga)",
        "dict_put(gd, hs(\"k\", 1), hs(\"v\")) dict_put(gd, \"k1\", 2) dict_remove(gd, \"k\") out(dict_get(gd, \"k1\"), dict_exists(gd, \"k\"))",
        "j := new J{g, \"q\\\"\"} out(J_to_json(j)) h := dinc() out(delegate_int_int_call(h, 2), g)",
        "out(callback(\"inc\", 5), callback(\"fib\", 3), g)",
        "n := mknat() b := box(n) setbox(b, b) out(natid(n)) where() out(substr(\"hello\", 1, 3), CS)",
        "if g == 0 { out(\"zero\") } else { out(\"not\", g) } g = 100 gs = \"other\" gp = new P{9, gs} out(gp)",
        "",
    };
    return b;
}
static const int SHORT = 6;
static string program() {
    string s = DECL;
    auto &b = bodies();
    for (size_t i = 0; i < b.size(); ++i) s += "func role" + std::to_string(i) + "() { " + b[i] + " }\n";
    s += "g = role()\n";
    s += "r := g g = 0\n";
    for (size_t i = 0; i < b.size(); ++i) s += string(i ? "else " : "") + "if r == " + std::to_string(i) + " { role" + std::to_string(i) + "() } ";
    return s + "\nout(\"end\", g, gs)\n";
}
static void bind(Tiny_State *s) {
    df::stdOpt().binder(s);
    Tiny_BindFunction(s, "role(): int", fRole);
    Tiny_BindFunction(s, "callback(str, ...): any", fCallBack);
    Tiny_BindFunction(s, "where(): void", fWhere);
}
static void observe(Tiny_StateThread *t) {
    static thread_local int f = -1;
    static thread_local const Tiny_State *of = nullptr;
    if (of != t->state) { f = Tiny_GetFunctionIndex(t->state, "dumpall"); of = t->state; }
    Tiny_CallFunction(t, f, nullptr, 0);
}
}
