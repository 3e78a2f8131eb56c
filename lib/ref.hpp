// Reference front end and interpreter for Tiny, written independently of /repo/tiny/src.
// Boring on purpose: a tokenizer, a recursive-descent parser, a checker and a tree walker.
// It is the oracle the bounded-exhaustive explorers compare the real implementation against.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace ref {

struct Reject { std::string why; int line; };   // the program is not a legal program
struct Skip { std::string why; };               // behaviour outside the specified domain

// ---------------------------------------------------------------- types
struct Type {
    enum K { Void, Bool, Int, Float, Str, Any, Foreign, Struct, Nullable } k;
    std::string name;
    bool defined = false;
    std::vector<std::pair<std::string, Type *>> fields;
    Type *inner = nullptr;
};

// ---------------------------------------------------------------- values
struct Obj;
struct Val {
    enum T : uint8_t { Null, Bool, Int, Float, Str, Struct, Native } t = Null;
    bool b = false;
    int64_t i = 0;
    double f = 0;
    const std::string *s = nullptr;
    Obj *o = nullptr;
    static Val mkBool(bool x) { Val v; v.t = Bool; v.b = x; return v; }
    static Val mkInt(int64_t x) { Val v; v.t = Int; v.i = x; return v; }
    static Val mkFloat(double x) { Val v; v.t = Float; v.f = x; return v; }
};
struct Obj {
    std::vector<Val> fields;   // struct fields or container content
    int id = 0;                // native id
};

inline bool equal(const Val &a, const Val &b) {
    if (a.t != b.t) return false;
    switch (a.t) {
        case Val::Null: return true;
        case Val::Bool: return a.b == b.b;
        case Val::Int: return a.i == b.i;
        case Val::Float: return a.f == b.f;
        case Val::Str: return *a.s == *b.s;
        case Val::Struct: return a.o == b.o;
        case Val::Native: return a.o == b.o;
    }
    return false;
}

inline void show(std::string &out, const Val &v, int depth = 4) {
    char buf[64];
    switch (v.t) {
        case Val::Null: out += 'N'; break;
        case Val::Bool: out += v.b ? "B1" : "B0"; break;
        case Val::Int: snprintf(buf, sizeof buf, "I%lld", (long long)v.i); out += buf; break;
        case Val::Float: snprintf(buf, sizeof buf, v.f != v.f ? "Fnan" : "F%a", v.f); out += buf; break;
        case Val::Str:
            snprintf(buf, sizeof buf, "S%zu:", v.s->size()); out += buf; out += *v.s; break;
        case Val::Struct:
            if (!depth) { out += "{..}"; break; }
            out += '{';
            for (size_t k = 0; k < v.o->fields.size(); ++k) {
                if (k) out += ',';
                show(out, v.o->fields[k], depth - 1);
            }
            out += '}';
            break;
        case Val::Native: snprintf(buf, sizeof buf, "O%d", v.o->id); out += buf; break;
    }
}

// ---------------------------------------------------------------- tokens
enum Tok {
    T_EOF, T_ERR, T_IDENT, T_INT, T_CHAR, T_FLOAT, T_STR, T_TRUE, T_FALSE, T_NULL,
    T_IF, T_FUNC, T_FOREIGN, T_RETURN, T_WHILE, T_FOR, T_ELSE, T_STRUCT, T_NEW, T_CAST,
    T_BREAK, T_CONTINUE, T_USE, T_FOREACH, T_PUNCT
};
struct Token { Tok t; std::string s; int64_t i = 0; double f = 0; int line = 1; int endLine = 1; };

inline std::vector<Token> tokenize(const std::string &src) {
    std::vector<Token> out;
    size_t p = 0, n = src.size();
    int line = 1;
    auto at = [&](size_t k) -> int { return k < n ? (unsigned char)src[k] : 0; };
    auto isA = [](int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
    auto isD = [](int c) { return c >= '0' && c <= '9'; };
    auto isX = [&](int c) { return isD(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
    static const char *two[] = {"&&", "||", ":=", "::", "+=", "-=", "*=", "/=", "%=", "|=",
                                "&=", "==", "!=", "<=", ">=", "->", "<<", ">>"};
    static const struct { const char *w; Tok t; } kw[] = {
        {"null", T_NULL}, {"true", T_TRUE}, {"false", T_FALSE}, {"if", T_IF}, {"func", T_FUNC},
        {"foreign", T_FOREIGN}, {"return", T_RETURN}, {"while", T_WHILE}, {"for", T_FOR},
        {"else", T_ELSE}, {"struct", T_STRUCT}, {"new", T_NEW}, {"cast", T_CAST},
        {"break", T_BREAK}, {"continue", T_CONTINUE}, {"use", T_USE}, {"foreach", T_FOREACH}};
    for (;;) {
        while (p < n && (src[p] == ' ' || (src[p] >= '\t' && src[p] <= '\r'))) {
            if (src[p] == '\n') ++line;
            ++p;
        }
        Token t;
        t.line = t.endLine = line;
        if (p >= n) { t.t = T_EOF; out.push_back(t); return out; }
        int c = at(p);
        if (c == '/' && at(p + 1) == '/') {
            while (p < n && src[p] != '\n') ++p;
            continue;
        }
        if (c == '.' && at(p + 1) == '.' && at(p + 2) == '.') {
            t.t = T_PUNCT; t.s = "..."; p += 3; out.push_back(t); continue;
        }
        bool done = false;
        for (auto s : two)
            if (c == s[0] && at(p + 1) == s[1]) {
                t.t = T_PUNCT; t.s = s; p += 2; out.push_back(t); done = true; break;
            }
        if (done) continue;
        if (strchr("(){}[]+-*/%><=!&|,;:.?", c)) {
            t.t = T_PUNCT; t.s = std::string(1, (char)c); ++p; out.push_back(t); continue;
        }
        if (isA(c)) {
            size_t b = p;
            while (isA(at(p)) || isD(at(p)) || at(p) == '_') ++p;
            t.s = src.substr(b, p - b);
            t.t = T_IDENT;
            for (auto &k : kw) if (t.s == k.w) t.t = k.t;
            out.push_back(t);
            continue;
        }
        if (isD(c)) {
            size_t b = p;
            bool fl = false, hx = false;
            for (;;) {
                int d = at(p);
                if (isD(d)) {}
                else if (d == 'x' && !hx) hx = true;
                else if (hx && isX(d)) {}
                else if (d == '.' && !fl) fl = true;
                else break;
                ++p;
            }
            t.s = src.substr(b, p - b);
            if (fl) { t.t = T_FLOAT; t.f = strtod(t.s.c_str(), nullptr); }
            else if (hx) { t.t = T_INT; t.i = strtoll(t.s.c_str(), nullptr, 16); }
            else { t.t = T_INT; t.i = strtoll(t.s.c_str(), nullptr, 10); }
            out.push_back(t);
            continue;
        }
        auto esc = [&](int &ch) {   // p is at the character; advances past an escape
            ch = at(p);
            if (ch == '\\') {
                ++p; ch = at(p);
                if (ch == '\n') ++line;
                switch (ch) {
                    case 't': ch = '\t'; break;
                    case 'n': ch = '\n'; break;
                    case 'r': ch = '\r'; break;
                    case 'b': ch = '\b'; break;
                    default: break;
                }
            }
        };
        if (c == '\'') {
            ++p;
            if (p >= n) { t.t = T_ERR; out.push_back(t); continue; }
            if (src[p] == '\n') ++line;
            int ch; esc(ch);
            if (p >= n) { t.t = T_ERR; out.push_back(t); continue; }
            ++p;
            if (at(p) != '\'') { t.t = T_ERR; out.push_back(t); continue; }
            ++p;
            t.t = T_CHAR; t.i = (int)(signed char)ch; out.push_back(t);
            continue;
        }
        if (c == '"') {
            ++p;
            bool bad = false;
            for (;;) {
                if (p >= n) { bad = true; break; }
                if (src[p] == '"') break;
                if (src[p] == '\n') ++line;
                int ch; esc(ch);
                if (p >= n) { bad = true; break; }
                t.s += (char)ch;
                ++p;
            }
            t.endLine = line;
            if (bad) { t.t = T_ERR; out.push_back(t); continue; }
            ++p;
            t.t = T_STR; out.push_back(t);
            continue;
        }
        t.t = T_ERR; t.s = std::string(1, (char)c); ++p; out.push_back(t);
    }
}

// ---------------------------------------------------------------- program representation
struct Node;
struct Func;
struct Var {
    enum K { Global, Local, Const } k;
    std::string name;
    Type *type = nullptr;
    int slot = 0, scope = 0;
    bool ended = false;
    Val cval;
};
struct Func {
    std::string name;
    bool foreign = false;
    std::vector<Type *> args;
    bool varargs = false;
    Type *ret = nullptr;
    std::vector<Var *> params;
    std::vector<Var *> locals;
    Node *body = nullptr, *def = nullptr;
    int index = 0;
    bool generated = false;        // by a macro, which may do so in either kind
    std::function<Val(std::vector<Val> &)> native;
};
enum Kind {
    N_NULL, N_BOOL, N_INT, N_CHAR, N_FLOAT, N_STR, N_ID, N_CALL, N_PAREN, N_BIN, N_UN, N_DOT,
    N_NEW, N_CAST, N_TERN, N_INDEX,
    S_ASSIGN, S_BLOCK, S_FUNC, S_IF, S_WHILE, S_FOR, S_RETURN, S_BREAK, S_CONT, S_USE, S_BAD
};
struct Node {
    Kind k;
    std::string s;                 // name / operator
    int64_t i = 0;
    double f = 0;
    std::vector<Node *> kids;
    std::vector<std::string> names;
    Type *type = nullptr;          // result, or cast/declared type
    Type *target = nullptr;        // constructor / cast target
    Var *var = nullptr;
    Func *fn = nullptr, *fn2 = nullptr;
    const std::string *lit = nullptr;
    int line = 0;
    int from = 0, to = 0, unit = 0;   // statements: the lines of the statement, without its bodies
};

typedef std::function<bool(struct State &, const std::vector<std::string> &, const std::string &)> Macro;

struct State {
    std::deque<Type> typePool;
    std::deque<Var> varPool;
    std::deque<Func> funcPool;
    std::deque<Node> nodePool;
    std::deque<std::string> strPool;

    std::vector<Type *> types;      // named types in declaration order
    std::vector<Type *> nullables;
    std::vector<Var *> globals;     // globals and constants
    std::vector<Func *> funcs;      // all functions in declaration order
    std::vector<std::pair<std::string, Macro>> macros;
    int nGlobals = 0, nScriptFuncs = 0, unit = 0;
    std::vector<std::vector<Node *>> units;   // compiled top-level statements

    Type *tVoid, *tBool, *tInt, *tFloat, *tStr, *tAny;

    Type *prim(Type::K k, const char *n) {
        typePool.push_back(Type{k, n, true});
        return &typePool.back();
    }
    State() {
        tVoid = prim(Type::Void, "void"); tBool = prim(Type::Bool, "bool");
        tInt = prim(Type::Int, "int"); tFloat = prim(Type::Float, "float");
        tStr = prim(Type::Str, "str"); tAny = prim(Type::Any, "any");
        bind("int(float): int", [](std::vector<Val> &a) {
            double f = a[0].t == Val::Float ? a[0].f : 0;
            if (!(f > -9.2e18 && f < 9.2e18)) throw Skip{"int() out of range"};
            return Val::mkInt((int64_t)f);
        });
        bind("float(int): float", [](std::vector<Val> &a) {
            return Val::mkFloat((double)(a[0].t == Val::Int ? a[0].i : 0));
        });
    }
    State(const State &) = delete;

    const std::string *str(const std::string &s) { strPool.push_back(s); return &strPool.back(); }

    Type *named(const std::string &n, bool declare) {
        if (n == "void") return tVoid;
        if (n == "bool") return tBool;
        if (n == "int") return tInt;
        if (n == "float") return tFloat;
        if (n == "str") return tStr;
        if (n == "any") return tAny;
        for (auto t : types) if (t->name == n) return t;
        if (!declare) return nullptr;
        typePool.push_back(Type{Type::Struct, n, false});
        types.push_back(&typePool.back());
        return types.back();
    }
    Type *nullable(Type *in) {
        for (auto t : nullables) if (t->inner == in) return t;
        typePool.push_back(Type{Type::Nullable, in->name + "?", true});
        typePool.back().inner = in;
        nullables.push_back(&typePool.back());
        return nullables.back();
    }
    void registerType(const std::string &n) {
        Type *t = named(n, false);
        if (t) { if (t->k == Type::Struct && !t->defined) { t->k = Type::Foreign; t->defined = true; } return; }
        typePool.push_back(Type{Type::Foreign, n, true});
        types.push_back(&typePool.back());
    }
    void bind(const std::string &sig, std::function<Val(std::vector<Val> &)> f) {
        auto tk = tokenize(sig);
        size_t p = 0;
        funcPool.push_back(Func{});
        Func *fn = &funcPool.back();
        fn->foreign = true;
        fn->name = tk[p++].s;
        fn->ret = tAny;
        fn->native = f;
        auto type = [&]() {
            Type *t = named(tk[p++].s, true);
            if (tk[p].t == T_PUNCT && tk[p].s == "?") { ++p; t = nullable(t); }
            return t;
        };
        if (tk[p].s != "(") fn->varargs = true;
        else {
            ++p;
            while (tk[p].s != ")") {
                if (tk[p].s == ",") { ++p; continue; }
                if (tk[p].s == "...") { fn->varargs = true; ++p; continue; }
                fn->args.push_back(type());
            }
            ++p;
            if (tk[p].s == ":") { ++p; fn->ret = type(); }
        }
        funcs.push_back(fn);
    }
    Func *func(const std::string &n) {
        for (auto f : funcs) if (f->name == n) return f;
        return nullptr;
    }
    Var *global(const std::string &n) {
        for (auto g : globals) if (g->name == n) return g;
        return nullptr;
    }
    void constant(const std::string &n, Type *t, Val v) {
        varPool.push_back(Var{});
        Var *x = &varPool.back();
        x->k = Var::Const; x->name = n; x->type = t; x->cval = v;
        globals.push_back(x);
    }
};

// ---------------------------------------------------------------- parser
struct Parser {
    State &S;
    std::vector<Token> tk;
    size_t p = 0;
    Func *cur = nullptr;
    int scope = 0;
    int loops = 0;

    Parser(State &s, const std::string &src) : S(s), tk(tokenize(src)) {}
    const Token &la() const { return tk[p]; }
    bool is(const char *s) const { return tk[p].t == T_PUNCT && tk[p].s == s; }
    bool is(Tok t) const { return tk[p].t == t; }
    void adv() { if (tk[p].t != T_EOF) ++p; }
    [[noreturn]] void bad(const std::string &w) { throw Reject{w, tk[p].line}; }
    void need(const char *s) { if (!is(s)) bad(std::string("expected ") + s); }
    Node *mk(Kind k) {
        S.nodePool.push_back(Node{k});
        S.nodePool.back().line = tk[p].line;
        return &S.nodePool.back();
    }
    void closeScope() {
        if (cur) for (auto v : cur->locals) if (v->scope == scope) v->ended = true;
        --scope;
    }
    Var *find(const std::string &n) {
        if (cur) {
            for (auto v : cur->locals) if (!v->ended && v->name == n) return v;
            for (auto v : cur->params) if (v->name == n) return v;
        }
        return S.global(n);
    }
    Type *type() {
        if (!is(T_IDENT)) bad("type name");
        Type *t = S.named(la().s, true);
        adv();
        if (is("?")) {
            if (t->k == Type::Void) bad("void?");
            t = S.nullable(t);
            adv();
        }
        return t;
    }

    // expressions ------------------------------------------------
    static int level(const Token &t) {
        if (t.t != T_PUNCT) return -1;
        static const struct { const char *s; int l; } ops[] = {
            {"*", 5}, {"/", 5}, {"%", 5}, {"&", 5}, {"|", 5}, {"<<", 4}, {">>", 4}, {"+", 4},
            {"-", 4}, {"<=", 3}, {">=", 3}, {"==", 3}, {"!=", 3}, {"<", 3}, {">", 3},
            {"&&", 2}, {"||", 2}};
        for (auto &o : ops) if (t.s == o.s) return o.l;
        return -1;
    }
    Node *expr(int lvl = 2) {          // one function per precedence level, left associative
        if (lvl == 6) return factor();
        Node *l = expr(lvl + 1);
        while (level(la()) == lvl) {
            std::string op = la().s;
            adv();
            Node *r = expr(lvl + 1);
            Node *b = mk(N_BIN);
            b->s = op;
            b->kids = {l, r};
            l = b;
        }
        return l;
    }
    Node *call(const std::string &name) {
        Node *c = mk(N_CALL);
        c->s = name;
        adv();   // (
        while (!is(")")) {
            c->kids.push_back(expr());
            if (is(",")) adv();
            else if (!is(")")) bad("call");
        }
        adv();
        return c;
    }
    Node *factor() {
        Node *e = value();
        for (;;) {
            if (is("[")) {
                adv();
                Node *n = mk(N_INDEX);
                n->kids = {e, expr()};
                need("]");
                adv();
                e = n;
            } else if (is("->")) {
                adv();
                if (!is(T_IDENT)) bad("-> name");
                std::string nm = la().s;
                adv();
                need("(");
                Node *c = call(nm);
                c->kids.insert(c->kids.begin(), e);
                e = c;
            } else if (is(".")) {
                adv();
                if (!is(T_IDENT)) bad(". name");
                Node *n = mk(N_DOT);
                n->s = la().s;
                n->kids = {e};
                adv();
                e = n;
            } else return e;
        }
    }
    Node *value() {
        const Token t = la();
        switch (t.t) {
            case T_NULL: { Node *n = mk(N_NULL); adv(); return n; }
            case T_TRUE: case T_FALSE: { Node *n = mk(N_BOOL); n->i = t.t == T_TRUE; adv(); return n; }
            case T_INT: { Node *n = mk(N_INT); n->i = t.i; adv(); return n; }
            case T_CHAR: { Node *n = mk(N_CHAR); n->i = t.i; adv(); return n; }
            case T_FLOAT: { Node *n = mk(N_FLOAT); n->f = t.f; adv(); return n; }
            case T_STR: { Node *n = mk(N_STR); n->lit = S.str(t.s); adv(); return n; }
            case T_IDENT: {
                adv();
                if (is("(")) return call(t.s);
                Node *n = mk(N_ID);
                n->line = t.line;
                n->s = t.s;
                n->var = find(t.s);
                return n;
            }
            case T_NEW: {
                adv();
                if (!is(T_IDENT)) bad("new name");
                Node *n = mk(N_NEW);
                n->target = nullptr;
                for (auto ty : S.types) if (ty->k == Type::Struct && ty->name == la().s) n->target = ty;
                if (!n->target) {
                    S.typePool.push_back(Type{Type::Struct, la().s, false});
                    S.types.push_back(&S.typePool.back());
                    n->target = S.types.back();
                }
                adv();
                need("{");
                adv();
                while (!is("}")) {
                    if (is(".")) {
                        adv();
                        if (!is(T_IDENT)) bad("designator");
                        n->names.push_back(la().s);
                        adv();
                        need("=");
                        adv();
                    }
                    n->kids.push_back(expr());
                    if (is(",")) adv();
                    else if (!is("}")) bad("constructor");
                }
                adv();
                return n;
            }
            case T_CAST: {
                Node *n = mk(N_CAST);
                adv();
                need("(");
                adv();
                n->kids = {expr()};
                need(",");
                adv();
                n->target = type();
                need(")");
                adv();
                return n;   // `.field` chains are handled by factor()
            }
            case T_IF: {
                Node *n = mk(N_TERN);
                adv();
                Node *c = expr(), *a = expr();
                if (!is(T_ELSE)) bad("else");
                adv();
                Node *b = expr();
                n->kids = {c, a, b};
                return n;
            }
            case T_PUNCT:
                if (t.s == "-" || t.s == "!") {
                    Node *n = mk(N_UN);
                    n->s = t.s;
                    adv();
                    n->kids = {factor()};
                    return n;
                }
                if (t.s == "(") {
                    adv();
                    Node *n = mk(N_PAREN);
                    n->kids = {expr()};
                    need(")");
                    adv();
                    return n;
                }
                bad("token " + t.s);
            default: bad("token " + t.s);
        }
    }

    // statements -------------------------------------------------
    Node *statement() {
        int from = la().line;
        Node *n = statement1();
        n->from = from;
        n->unit = S.unit;
        if (!n->to) n->to = tk[p - 1].endLine;
        return n;
    }
    Node *statement1() {
        if (is("{")) {
            Node *n = mk(S_BLOCK);
            adv();
            ++scope;
            while (!is("}")) n->kids.push_back(statement());
            adv();
            closeScope();
            return n;
        }
        switch (la().t) {
            case T_FUNC: return function();
            case T_IF: {
                Node *n = mk(S_IF);
                adv();
                n->kids = {expr()};
                n->to = tk[p - 1].endLine;
                n->kids.push_back(statement());
                if (is(T_ELSE)) { adv(); n->kids.push_back(statement()); }
                return n;
            }
            case T_WHILE: {
                adv();
                Node *n = mk(S_WHILE);
                n->kids = {expr()};
                n->to = tk[p - 1].endLine;
                ++scope; ++loops;
                n->kids.push_back(statement());
                --loops;
                closeScope();
                return n;
            }
            case T_FOR: {
                adv();
                Node *n = mk(S_FOR);
                ++scope;
                int saved = loops;
                loops = 0;   // break/continue make no sense in init or step
                n->kids.push_back(statement());
                need(";"); adv();
                n->kids.push_back(expr());
                need(";"); adv();
                n->kids.push_back(statement());
                n->to = tk[p - 1].endLine;
                loops = saved + 1;
                n->kids.push_back(statement());
                loops = saved;
                closeScope();
                return n;
            }
            case T_RETURN: {
                if (!cur) bad("return outside function");
                Node *n = mk(S_RETURN);
                n->fn = cur;
                adv();
                if (is(";")) { adv(); return n; }
                if (cur->ret->k == Type::Void) bad("value from void");
                n->kids = {expr()};
                return n;
            }
            case T_BREAK: { if (!loops) bad("break outside loop"); adv(); return mk(S_BREAK); }
            case T_CONTINUE: { if (!loops) bad("continue outside loop"); Node *n = mk(S_CONT); adv(); return n; }
            case T_USE: {
                if (cur || scope) bad("use not at top level");
                Node *n = mk(S_USE);
                adv();
                if (!is(T_IDENT)) bad("use name");
                n->s = la().s;
                adv();
                need("(");
                adv();
                while (!is(")")) {
                    if (!is(T_STR)) bad("use arg");
                    n->names.push_back(la().s);
                    adv();
                    if (is(",")) adv();
                }
                adv();
                if (is(T_IDENT) && la().s == "as") {
                    adv();
                    if (!is(T_IDENT)) bad("as name");
                    n->lit = S.str(la().s);
                    adv();
                }
                return n;
            }
            default: return simple();
        }
    }
    Node *simple() {
        Node *l = factor();
        if (l->k == N_CALL) return l;
        Node *n = mk(S_ASSIGN);
        std::string op = is(T_PUNCT) ? la().s : "<" + la().s + ">";
        if (op == ":=" || op == ":") {
            if (l->k != N_ID) bad("declaration target");
            // a declaration: visible from here on, including (illegally) its own initializer
            if (cur) {
                for (auto v : cur->locals) if (!v->ended && v->name == l->s) bad("duplicate local " + l->s);
                S.varPool.push_back(Var{});
                Var *v = &S.varPool.back();
                v->k = Var::Local; v->name = l->s; v->scope = scope; v->slot = (int)cur->locals.size();
                cur->locals.push_back(v);
                l->var = v;
            } else {
                if (S.global(l->s)) bad("duplicate global " + l->s);
                S.varPool.push_back(Var{});
                Var *v = &S.varPool.back();
                v->k = Var::Global; v->name = l->s; v->slot = S.nGlobals++;
                S.globals.push_back(v);
                l->var = v;
            }
            if (op == ":") {
                adv();
                l->var->type = type();
                need("=");
                op = "=";
            }
        }
        if (level(la()) >= 0) bad("expression statement");
        adv();
        Node *r = expr();
        if (op == "::") {
            if (l->k != N_ID) bad("constant target");
            Type *t; Val v;
            switch (r->k) {
                case N_BOOL: t = S.tBool; v = Val::mkBool(r->i); break;
                case N_CHAR: case N_INT: t = S.tInt; v = Val::mkInt(r->i); break;
                case N_FLOAT: t = S.tFloat; v = Val::mkFloat(r->f); break;
                case N_STR: t = S.tStr; v.t = Val::Str; v.s = r->lit; break;
                default: bad("constant value");
            }
            if (find(l->s)) bad("duplicate constant " + l->s);
            S.constant(l->s, t, v);
        } else {
            static const char *ok[] = {"=", ":=", "+=", "-=", "*=", "/=", "%=", "|=", "&="};
            bool good = false;
            for (auto o : ok) if (op == o) good = true;
            if (!good) bad("not an assignment: " + op);
        }
        n->s = op;
        n->kids = {l, r};
        return n;
    }
    Node *function() {
        if (cur) bad("nested function");
        Node *n = mk(S_FUNC);
        adv();
        if (!is(T_IDENT)) bad("function name");
        S.funcPool.push_back(Func{});
        Func *f = &S.funcPool.back();
        f->name = la().s;
        f->index = S.nScriptFuncs++;
        S.funcs.push_back(f);
        n->fn = f;
        cur = f;
        adv();
        need("(");
        adv();
        while (!is(")")) {
            if (!is(T_IDENT)) bad("parameter");
            std::string nm = la().s;
            adv();
            need(":");
            adv();
            Type *t = type();
            for (auto q : f->params) if (q->name == nm) bad("duplicate parameter");
            S.varPool.push_back(Var{});
            Var *v = &S.varPool.back();
            v->k = Var::Local; v->name = nm; v->type = t;
            v->slot = -1 - (int)f->params.size();
            f->params.push_back(v);
            f->args.push_back(t);
            if (is(",")) adv();
            else if (!is(")")) bad("parameter list");
        }
        adv();
        if (is(":")) { adv(); f->ret = type(); } else f->ret = S.tVoid;
        n->to = tk[p - 1].endLine;
        f->def = n;
        int saved = loops;
        loops = 0;
        ++scope;
        f->body = statement();
        closeScope();
        loops = saved;
        cur = nullptr;
        return n;
    }
    void structure() {
        adv();
        if (!is(T_IDENT)) bad("struct name");
        Type *t = nullptr;
        for (auto ty : S.types) if (ty->k == Type::Struct && ty->name == la().s) { t = ty; break; }
        if (!t) {
            S.typePool.push_back(Type{Type::Struct, la().s, false});
            S.types.push_back(&S.typePool.back());
            t = S.types.back();
        }
        if (t->defined) bad("struct redefined");
        t->defined = true;
        adv();
        need("{");
        adv();
        while (!is("}")) {
            if (!is(T_IDENT)) bad("field");
            std::string nm = la().s;
            if (t->fields.size() >= 255) bad("too many fields");
            for (auto &f : t->fields) if (f.first == nm) bad("duplicate field");
            adv();
            need(":");
            adv();
            Type *ft = type();
            t->fields.push_back({nm, ft});
        }
        if (t->fields.empty()) bad("empty struct");
        adv();
    }
    std::vector<Node *> program() {
        std::vector<Node *> out;
        while (!is(T_EOF)) {
            if (is(T_STRUCT)) structure();
            else out.push_back(statement());
        }
        return out;
    }
};

// ---------------------------------------------------------------- static rules
struct Checker {
    State &S;
    Func *cur = nullptr;
    Checker(State &s) : S(s) {}
    [[noreturn]] void bad(Node *n, const std::string &w) { throw Reject{w, n->line}; }

    static bool fits(Type *src, Type *dst) {
        if (src->k == Type::Void) return false;
        if (dst->k == Type::Any) return true;
        if (src->k == Type::Any) return false;
        if (dst->k == Type::Nullable) return fits(src->k == Type::Nullable ? src->inner : src, dst->inner);
        return src->k == dst->k && src->name == dst->name;
    }
    static bool num(Type *t) { return t->k == Type::Int || t->k == Type::Float; }

    void callArgs(Node *n, Func *f, std::vector<Node *> &args) {
        for (size_t i = 0; i < args.size(); ++i) {
            Type *t = expr(args[i]);
            if (i >= f->args.size()) {
                if (!f->varargs) bad(n, "too many arguments");
                continue;
            }
            if (!fits(t, f->args[i])) bad(n, "argument type");
        }
        if (args.size() < f->args.size()) bad(n, "too few arguments");
        if (args.size() > 255) bad(n, "more than 255 arguments");
    }
    Type *expr(Node *n) { return n->type = expr0(n); }
    Type *expr0(Node *n) {
        switch (n->k) {
            case N_NULL: return S.tAny;
            case N_BOOL: return S.tBool;
            case N_INT: case N_CHAR: return S.tInt;
            case N_FLOAT: return S.tFloat;
            case N_STR: return S.tStr;
            case N_ID:
                if (!n->var) bad(n, "undeclared " + n->s);
                if (!n->var->type) bad(n, "used in its own initializer");
                return n->var->type;
            case N_PAREN: return expr(n->kids[0]);
            case N_CALL: {
                Func *f = S.func(n->s);
                if (!f) bad(n, "undeclared function " + n->s);
                n->fn = f;
                callArgs(n, f, n->kids);
                return f->ret;
            }
            case N_BIN: {
                Type *a = expr(n->kids[0]), *b = expr(n->kids[1]);
                const std::string &o = n->s;
                if (o == "+" || o == "-" || o == "*" || o == "/") {
                    if (!num(a) || !num(b)) bad(n, "operands");
                    return a->k == Type::Int && b->k == Type::Int ? S.tInt : S.tFloat;
                }
                if (o == "%" || o == "&" || o == "|" || o == "<<" || o == ">>") {
                    if (a->k != Type::Int || b->k != Type::Int) bad(n, "operands");
                    return S.tInt;
                }
                if (o == "&&" || o == "||") {
                    if (a->k != Type::Bool || b->k != Type::Bool) bad(n, "operands");
                    return S.tBool;
                }
                if (o == "==" || o == "!=") {
                    if (a->k == Type::Void || b->k == Type::Void) bad(n, "void");
                    return S.tBool;
                }
                if (!num(a) || !num(b)) bad(n, "operands");
                return S.tBool;
            }
            case N_UN: {
                Type *a = expr(n->kids[0]);
                if (n->s == "!") {
                    if (a->k != Type::Bool) bad(n, "operand");
                    return S.tBool;
                }
                if (!num(a)) bad(n, "operand");
                return a;
            }
            case N_DOT: {
                Type *t = expr(n->kids[0]);
                if (t->k != Type::Struct) bad(n, ". on non struct");
                for (size_t i = 0; i < t->fields.size(); ++i)
                    if (t->fields[i].first == n->s) { n->i = (int64_t)i; return t->fields[i].second; }
                bad(n, "no field");
            }
            case N_NEW: {
                Type *t = n->target;
                for (auto k : n->kids) expr(k);
                if (n->kids.size() != t->fields.size()) bad(n, "constructor arity");
                if (!n->names.empty() && n->names.size() != n->kids.size()) bad(n, "mixed designators");
                for (size_t i = 0; i < n->kids.size(); ++i) {
                    size_t j = i;
                    if (!n->names.empty()) {
                        for (j = 0; j < t->fields.size(); ++j) if (t->fields[j].first == n->names[i]) break;
                        if (j == t->fields.size()) bad(n, "no such field");
                        for (size_t q = 0; q < i; ++q) if (n->names[q] == n->names[i]) bad(n, "duplicate designator");
                    }
                    if (!fits(n->kids[i]->type, t->fields[j].second)) bad(n, "field type");
                }
                return t;
            }
            case N_CAST: {
                Type *t = expr(n->kids[0]);
                if (t->k != Type::Any && n->target->k != Type::Any) bad(n, "cast");
                return n->target;
            }
            case N_TERN: {
                if (expr(n->kids[0])->k != Type::Bool) bad(n, "condition");
                Type *a = expr(n->kids[1]), *b = expr(n->kids[2]);
                if (a != b) bad(n, "arms differ");
                return a;
            }
            case N_INDEX: {
                Type *a = expr(n->kids[0]);
                expr(n->kids[1]);
                n->fn = S.func(a->name + "_get_index");
                n->fn2 = S.func(a->name + "_set_index");
                if (!n->fn) bad(n, "no get_index");
                arity(n, n->fn, {a, n->kids[1]->type});
                return n->fn->ret;
            }
            default: bad(n, "statement as expression");
        }
    }
    void arity(Node *n, Func *f, std::vector<Type *> ts) {
        size_t k = ts.size();
        if (k < f->args.size() || (k > f->args.size() && !f->varargs)) bad(n, "index function arity");
        for (size_t i = 0; i < f->args.size(); ++i)
            if (!fits(ts[i], f->args[i])) bad(n, "index argument type");
    }
    void stmt(Node *n) {
        switch (n->k) {
            case N_CALL: expr(n); break;
            case S_BLOCK: for (auto k : n->kids) stmt(k); break;
            case S_FUNC: {
                Func *sv = cur; cur = n->fn;
                stmt(n->fn->body);
                cur = sv;
                if (n->fn->locals.size() > 255) bad(n, "too many locals");
                break;
            }
            case S_IF:
                if (expr(n->kids[0])->k != Type::Bool) bad(n, "condition");
                for (size_t i = 1; i < n->kids.size(); ++i) stmt(n->kids[i]);
                break;
            case S_WHILE:
                if (expr(n->kids[0])->k != Type::Bool) bad(n, "condition");
                stmt(n->kids[1]);
                break;
            case S_FOR:
                stmt(n->kids[0]);
                if (expr(n->kids[1])->k != Type::Bool) bad(n, "condition");
                stmt(n->kids[2]);
                stmt(n->kids[3]);
                break;
            case S_RETURN:
                if (n->kids.empty()) {
                    if (n->fn->ret->k != Type::Void) bad(n, "return without value");
                } else if (!fits(expr(n->kids[0]), n->fn->ret)) bad(n, "return type");
                break;
            case S_ASSIGN: {
                Node *l = n->kids[0], *r = n->kids[1];
                if (n->s == "::") { expr(r); break; }
                if (n->s == ":=") {
                    Type *t = expr(r);
                    if (t->k == Type::Void) bad(n, "void initializer");
                    l->var->type = l->type = t;
                    break;
                }
                Type *a = expr(l), *b = expr(r);
                if (!fits(b, a)) bad(n, "assignment type");
                if (n->s == "+=" || n->s == "-=" || n->s == "*=" || n->s == "/=") {
                    if (!num(a) || a != b) bad(n, "compound operands");
                } else if (n->s != "=") {
                    if (a->k != Type::Int || b->k != Type::Int) bad(n, "compound operands");
                }
                if (l->k == N_ID) {
                    if (l->var->k == Var::Const) bad(n, "assignment to constant");
                } else if (l->k == N_INDEX) {
                    if (!l->fn2) bad(n, "no set_index");
                    arity(n, l->fn2, {l->kids[0]->type, l->kids[1]->type, b});
                } else if (l->k != N_DOT) bad(n, "assignment target");
                break;
            }
            case S_BREAK: case S_CONT: case S_USE: break;
            default: bad(n, "expression as statement");
        }
    }
};

// Compiles `src` into S. Returns "" when accepted, otherwise the reason (S is left unchanged).
inline std::string compile(State &S, const std::string &src, int *errLine = nullptr) {
    auto types = S.types; auto nullables = S.nullables; auto globals = S.globals; auto funcs = S.funcs;
    auto macros = S.macros;
    int ng = S.nGlobals, nf = S.nScriptFuncs;
    size_t nu = S.units.size();
    try {
        Parser P(S, src);
        auto prog = P.program();
        std::vector<Type *> own(S.types.begin() + types.size(), S.types.end());
        for (auto n : prog)
            if (n->k == S_USE) {
                bool found = false;
                for (size_t i = 0; i < S.macros.size(); ++i)
                    if (S.macros[i].first == n->s) {
                        Macro m = S.macros[i].second;
                        if (!m(S, n->names, n->lit ? *n->lit : "")) throw Reject{"macro failed", n->line};
                        found = true;
                        break;
                    }
                if (!found) throw Reject{"undefined macro", n->line};
            }
        for (auto t : own)
            if (t->k == Type::Struct && !t->defined) throw Reject{"undefined struct " + t->name, 0};
        Checker C(S);
        for (auto n : prog) C.stmt(n);
        S.units.push_back(prog);
        return "";
    } catch (Reject &r) {
        S.types = types; S.nullables = nullables; S.globals = globals; S.funcs = funcs; S.macros = macros;
        S.nGlobals = ng; S.nScriptFuncs = nf;
        S.units.resize(nu);
        if (errLine) *errLine = r.line;
        return r.why.empty() ? "rejected" : r.why;
    }
}

// ---------------------------------------------------------------- evaluation
struct Machine {
    State &S;
    std::vector<Val> globals;
    std::deque<Obj> heap;
    std::deque<std::string> strs;
    struct Frame { std::vector<Val> args, locals; Val ret; };
    Frame *fr = nullptr;
    // The statements passed through, when wanted. Kinds: 1 code of the statement is executed, 0 may be
    // executed, 2 a foreign function is called.
    struct Passed { Node *n; int kind; Func *f; };
    std::vector<Passed> *passed = nullptr;
    Node *cur = nullptr;
    int inForeign = 0;
    void pass(Node *n, int kind = 1) { if (passed && !inForeign && n) passed->push_back({n, kind, nullptr}); }
    void call(Node *n, Func *f) { if (passed && n) passed->push_back({n, 2, f}); }
    int depth = 0, maxDepth = 64;   // TINY_THREAD_MAX_CALL_DEPTH
    long steps = 0, maxSteps = 200000;
    bool timeout = false;

    Machine(State &s) : S(s), globals(s.nGlobals) {}
    enum Flow { Go, Brk, Cont, Ret };

    void tick() { if (++steps > maxSteps) { timeout = true; throw Skip{"step budget"}; } }
    const std::string *mkstr(const std::string &s) { strs.push_back(s); return &strs.back(); }
    Val strVal(const std::string &s) { Val v; v.t = Val::Str; v.s = mkstr(s); return v; }

    static int64_t chk(__int128 x) {
        if (x > INT64_MAX || x < INT64_MIN) throw Skip{"integer overflow"};
        return (int64_t)x;
    }
    static double dbl(const Val &v) {
        if (v.t == Val::Int) return (double)v.i;
        if (v.t == Val::Float) return v.f;
        throw Skip{"non-number in arithmetic"};
    }
    static Val arith(const std::string &o, const Val &a, const Val &b) {
        char c = o[0];
        if (o == "<<" || o == ">>") {
            if (a.t != Val::Int || b.t != Val::Int) throw Skip{"non-int"};
            if (b.i < 0 || b.i > 63) throw Skip{"shift range"};
            if (c == '<') { if (a.i > (INT64_MAX >> b.i) || a.i < (INT64_MIN >> b.i)) throw Skip{"shift overflow"}; return Val::mkInt((int64_t)((uint64_t)a.i << b.i)); }
            return Val::mkInt(a.i >> b.i);   // keeps the sign
        }
        if (c == '%' || c == '|' || c == '&') {
            if (a.t != Val::Int || b.t != Val::Int) throw Skip{"non-int"};
            if (c == '|') return Val::mkInt(a.i | b.i);
            if (c == '&') return Val::mkInt(a.i & b.i);
            if (b.i == 0 || (b.i == -1 && a.i == INT64_MIN)) throw Skip{"modulo"};
            return Val::mkInt(a.i % b.i);
        }
        if (a.t == Val::Int && b.t == Val::Int) {
            switch (c) {
                case '+': return Val::mkInt(chk((__int128)a.i + b.i));
                case '-': return Val::mkInt(chk((__int128)a.i - b.i));
                case '*': return Val::mkInt(chk((__int128)a.i * b.i));
                default:
                    if (b.i == 0 || (b.i == -1 && a.i == INT64_MIN)) throw Skip{"division"};
                    return Val::mkInt(a.i / b.i);
            }
        }
        double x = dbl(a), y = dbl(b);
        switch (c) {
            case '+': return Val::mkFloat(x + y);
            case '-': return Val::mkFloat(x - y);
            case '*': return Val::mkFloat(x * y);
            default: return Val::mkFloat(x / y);
        }
    }
    static Val compare(const std::string &o, const Val &a, const Val &b) {
        if (o == "==") return Val::mkBool(equal(a, b));
        if (o == "!=") return Val::mkBool(!equal(a, b));
        int c;   // -1 0 1, 2 = unordered
        if (a.t == Val::Int && b.t == Val::Int) c = a.i < b.i ? -1 : a.i > b.i;
        else { double x = dbl(a), y = dbl(b); c = x < y ? -1 : x > y ? 1 : x == y ? 0 : 2; }
        if (o == "<") return Val::mkBool(c == -1);
        if (o == ">") return Val::mkBool(c == 1);
        if (o == "<=") return Val::mkBool(c == -1 || c == 0);
        return Val::mkBool(c == 1 || c == 0);
    }
    Val &slot(Var *v) {
        if (v->k == Var::Global) return globals[v->slot];
        if (v->slot < 0) return fr->args[-1 - v->slot];
        return fr->locals[v->slot];
    }
    Val invoke(Func *f, std::vector<Val> &args) {
        tick();
        if (f->foreign) {
            Node *at = cur;
            call(at, f);
            ++inForeign;
            Val v = f->native(args);
            --inForeign;
            cur = at;
            pass(at, 0);
            return v;
        }
        if (depth >= maxDepth) throw Skip{"call depth"};
        Frame nf;
        nf.args = args;
        nf.locals.resize(f->locals.size());
        Frame *sv = fr;
        fr = &nf;
        ++depth;
        Node *at = cur;
        cur = f->def;
        pass(f->def, 0);        // making room for the locals
        if (exec(f->body) == Go) pass(f->def, 0);
        cur = at;
        pass(at, 0);
        --depth;
        fr = sv;
        return nf.ret;
    }
    bool truth(const Val &v) { if (v.t != Val::Bool) throw Skip{"non-bool condition"}; return v.b; }
    Val eval(Node *n) {
        tick();
        switch (n->k) {
            case N_NULL: return Val{};
            case N_BOOL: return Val::mkBool(n->i);
            case N_INT: case N_CHAR: return Val::mkInt(n->i);
            case N_FLOAT: return Val::mkFloat(n->f);
            case N_STR: { Val v; v.t = Val::Str; v.s = n->lit; return v; }
            case N_ID: return n->var->k == Var::Const ? n->var->cval : slot(n->var);
            case N_PAREN: return eval(n->kids[0]);
            case N_CALL: {
                std::vector<Val> a;
                for (auto k : n->kids) a.push_back(eval(k));
                return invoke(n->fn, a);
            }
            case N_BIN: {
                Val a = eval(n->kids[0]);
                if (n->s == "&&") return truth(a) ? eval(n->kids[1]) : a;
                if (n->s == "||") return truth(a) ? a : eval(n->kids[1]);
                Val b = eval(n->kids[1]);
                char c = n->s[0];
                if (n->s == "==" || n->s == "!=" || ((c == '<' || c == '>') && n->s != "<<" && n->s != ">>"))
                    return compare(n->s, a, b);
                return arith(n->s, a, b);
            }
            case N_UN: {
                Val a = eval(n->kids[0]);
                if (n->s == "!") return Val::mkBool(!truth(a));
                if (a.t == Val::Int) return Val::mkInt(chk(-(__int128)a.i));
                if (a.t != Val::Float) throw Skip{"negating non-number"};
                return Val::mkFloat(-a.f);
            }
            case N_DOT: {
                Val a = eval(n->kids[0]);
                if (a.t != Val::Struct) throw Skip{"null dereference"};
                if ((size_t)n->i >= a.o->fields.size()) throw Skip{"field"};
                return a.o->fields[n->i];
            }
            case N_NEW: {
                std::vector<Val> f(n->kids.size());
                if (n->names.empty()) for (size_t i = 0; i < f.size(); ++i) f[i] = eval(n->kids[i]);
                else
                    for (size_t j = 0; j < f.size(); ++j)
                        for (size_t i = 0; i < f.size(); ++i)
                            if (n->names[i] == n->target->fields[j].first) f[j] = eval(n->kids[i]);
                heap.push_back(Obj{});
                heap.back().fields = f;
                Val v;
                v.t = Val::Struct;
                v.o = &heap.back();
                return v;
            }
            case N_CAST: return eval(n->kids[0]);
            case N_TERN: return truth(eval(n->kids[0])) ? eval(n->kids[1]) : eval(n->kids[2]);
            case N_INDEX: {
                std::vector<Val> a{eval(n->kids[0])};
                a.push_back(eval(n->kids[1]));
                return invoke(n->fn, a);
            }
            default: throw Skip{"?"};
        }
    }
    Flow exec(Node *n) {
        tick();
        if (n->k == S_FUNC) pass(n, 0);
        else if (n->k != S_BLOCK && n->k != S_USE && !(n->k == S_ASSIGN && n->s == "::")) { cur = n; pass(n, n->k == S_FOR ? 0 : 1); }
        switch (n->k) {
            case N_CALL: eval(n); return Go;
            case S_BLOCK:
                for (auto k : n->kids) { Flow f = exec(k); if (f != Go) return f; }
                return Go;
            case S_FUNC: case S_USE: return Go;
            case S_IF:
                if (truth(eval(n->kids[0]))) {
                    Flow f = exec(n->kids[1]);
                    if (f == Go) pass(n, 0);
                    return f;
                }
                return n->kids.size() > 2 ? exec(n->kids[2]) : Go;
            case S_WHILE:
                while (truth(eval(n->kids[0]))) {
                    Flow f = exec(n->kids[1]);
                    if (f == Brk) break;
                    if (f == Ret) return f;
                    cur = n;
                    pass(n);
                }
                return Go;
            case S_FOR: {
                Flow f = exec(n->kids[0]);
                if (f != Go) return f;
                cur = n;
                pass(n);
                while (truth(eval(n->kids[1]))) {
                    f = exec(n->kids[3]);
                    if (f == Brk) break;
                    if (f == Ret) return f;
                    f = exec(n->kids[2]);
                    if (f != Go) return f;
                    cur = n;
                    pass(n);
                }
                return Go;
            }
            case S_RETURN:
                fr->ret = n->kids.empty() ? Val{} : eval(n->kids[0]);
                return Ret;
            case S_BREAK: return Brk;
            case S_CONT: return Cont;
            case S_ASSIGN: {
                if (n->s == "::") return Go;
                Node *l = n->kids[0], *r = n->kids[1];
                bool compound = n->s != "=" && n->s != ":=";
                std::string op = n->s.substr(0, 1);
                if (l->k == N_ID) {
                    Val v;
                    if (compound) { Val a = slot(l->var); Val b = eval(r); v = arith(op, a, b); }
                    else v = eval(r);
                    slot(l->var) = v;
                } else if (l->k == N_DOT) {
                    Val v;
                    if (compound) { Val a = eval(l); Val b = eval(r); v = arith(op, a, b); }
                    else v = eval(r);
                    Val o = eval(l->kids[0]);
                    if (o.t != Val::Struct) throw Skip{"null dereference"};
                    o.o->fields[l->i] = v;
                } else {
                    std::vector<Val> a{eval(l->kids[0])};
                    a.push_back(eval(l->kids[1]));
                    Val v;
                    if (compound) { Val x = eval(l); Val b = eval(r); v = arith(op, x, b); }
                    else v = eval(r);
                    a.push_back(v);
                    invoke(l->fn2, a);
                }
                return Go;
            }
            default: throw Skip{"?"};
        }
    }
    // Runs every compiled unit in order, as the concatenated program.
    void run() {
        globals.resize(S.nGlobals);
        for (auto &u : S.units)
            for (auto n : u) exec(n);
    }
    Val callByName(const std::string &name, std::vector<Val> args) {
        globals.resize(S.nGlobals);
        Func *f = S.func(name);
        return invoke(f, args);
    }
};

}  // namespace ref
