// Reference models of the standard containers and string functions, written against their
// documented behaviour (sequences, maps, byte strings), for use in whole programs.
#pragma once
#include <algorithm>
#include "diff.hpp"
namespace df {
using ref::Val;

inline void bindStdImpl(Tiny_State *s) {
    bindImpl(s);
    Tiny_BindStandardArray(s);
    Tiny_BindStandardDict(s);
    Tiny_BindStandardLib(s);
}
// Containers are natives whose id tells their kind.
enum { ARR = -1, DICT = -2, BOX = -3 };
inline Val refNative(RefEnv &R, const std::vector<Val> &f, int kind = ARR) {
    R.nats.push_back(ref::Obj{});
    R.nats.back().fields = f;
    R.nats.back().id = kind;
    Val v; v.t = Val::Native; v.o = &R.nats.back();
    return v;
}
inline std::vector<Val> &seq(Val &v) {
    if (v.t != Val::Native) throw ref::Skip{"null container"};
    return v.o->fields;
}
inline size_t pos(const Val &v, size_t n) {
    if (v.t != Val::Int || v.i < 0 || (uint64_t)v.i >= n) throw ref::Skip{"index out of range"};
    return (size_t)v.i;
}
inline bool arrayMacro(RefEnv *R, ref::State &S, const std::vector<string> &args, const string &as) {
    if (args.size() != 1 || as.empty()) return false;
    auto known = [&](const string &n) { ref::Type *t = S.named(n, false); return t && t->k == ref::Type::Struct && !t->defined ? nullptr : t; };
    ref::Type *ex = known(as);
    for (auto n : S.nullables) if (n->name == as) ex = n;
    if (ex && (ex->k != ref::Type::Foreign || S.func(as))) return true;
    ref::Type *el = known(args[0]);
    if (!el) return false;
    if (!ex) S.registerType(as);
    const string &A = as, &E = args[0];
    S.bind(A + "(...): " + A, [R](std::vector<Val> &a) { return refNative(*R, a); });
    S.bind(A + "_clear(" + A + "): void", [](std::vector<Val> &a) { seq(a[0]).clear(); return Val{}; });
    auto resize = [](std::vector<Val> &a) {
        auto &v = seq(a[0]);
        if (a[1].t != Val::Int || a[1].i < 0) throw ref::Skip{"size"};
        v.resize((size_t)a[1].i, a.size() > 2 ? a[2] : Val{});
        return Val{};
    };
    S.bind(A + "_resize(" + A + ", int): void", resize);
    S.bind(A + "_resize_fill(" + A + ", int, " + E + "): void", resize);
    auto get = [](std::vector<Val> &a) { auto &v = seq(a[0]); return v[pos(a[1], v.size())]; };
    auto set = [](std::vector<Val> &a) { auto &v = seq(a[0]); v[pos(a[1], v.size())] = a[2]; return Val{}; };
    S.bind(A + "_get(" + A + ", int): " + E, get);
    S.bind(A + "_get_index(" + A + ", int): " + E, get);
    S.bind(A + "_set(" + A + ", int, " + E + "): void", set);
    S.bind(A + "_set_index(" + A + ", int, " + E + "): void", set);
    S.bind(A + "_len(" + A + "): int", [](std::vector<Val> &a) { return Val::mkInt((int64_t)seq(a[0]).size()); });
    S.bind(A + "_push(" + A + ", " + E + "): void", [](std::vector<Val> &a) { seq(a[0]).push_back(a[1]); return Val{}; });
    S.bind(A + "_pop(" + A + "): " + E, [](std::vector<Val> &a) {
        auto &v = seq(a[0]);
        if (v.empty()) throw ref::Skip{"empty"};
        Val r = v.back(); v.pop_back(); return r; });
    S.bind(A + "_shift(" + A + "): " + E, [](std::vector<Val> &a) {
        auto &v = seq(a[0]);
        if (v.empty()) throw ref::Skip{"empty"};
        Val r = v.front(); v.erase(v.begin()); return r; });
    S.bind(A + "_remove(" + A + ", int): void", [](std::vector<Val> &a) {
        auto &v = seq(a[0]);
        v.erase(v.begin() + pos(a[1], v.size())); return Val{}; });
    S.bind(A + "_insert(" + A + ", int, " + E + "): void", [](std::vector<Val> &a) {
        auto &v = seq(a[0]);
        v.insert(v.begin() + pos(a[1], v.size()), a[2]); return Val{}; });
    if (el->k == ref::Type::Int)
        S.bind(A + "_sort(" + A + "): void", [](std::vector<Val> &a) {
            auto &v = seq(a[0]);
            for (auto &x : v) if (x.t != Val::Int) throw ref::Skip{"sorting non-ints"};
            for (size_t i = 1; i < v.size(); ++i)
                for (size_t j = i; j && v[j].i < v[j - 1].i; --j) std::swap(v[j], v[j - 1]);
            return Val{}; });
    return true;
}
// A delegate is its target's position among the functions; its value is opaque to programs.
inline bool delegateMacro(RefEnv *R, ref::State &S, const std::vector<string> &args, const string &as) {
    if (args.size() != 1 || as.empty()) return false;
    ref::Func *f = S.func(args[0]);
    if (!f) return false;
    string D = "delegate_", sig;
    for (size_t i = 0; i < f->args.size(); ++i) { D += (i ? "_" : "") + f->args[i]->name; sig += ", " + f->args[i]->name; }
    string ret = f->ret->name;
    D += "_" + ret;
    for (auto &c : D) if (c == '?') c = '_';
    ref::Type *known = S.named(D, false);
    if (known && (known->k != ref::Type::Struct || known->defined)) {
        ref::Func *c = S.func(D + "_call");
        if (!c || c->ret != f->ret || c->args.size() != f->args.size() + 1 || !std::equal(f->args.begin(), f->args.end(), c->args.begin() + 1)) return false;
    } else {
        S.registerType(D);
        S.bind(D + "_call(" + D + sig + "): " + ret, [R](std::vector<Val> &a) {
            if (a[0].t != Val::Int) throw ref::Skip{"null delegate"};
            ref::Func *g = R->S.funcs[(size_t)a[0].i];
            std::vector<Val> x(a.begin() + 1, a.end());
            return g->foreign ? g->native(x) : R->M->invoke(g, x); });
        S.funcs.back()->generated = true;
    }
    if (!S.func(as)) {
        size_t at = std::find(S.funcs.begin(), S.funcs.end(), f) - S.funcs.begin();
        S.bind(as + "(): " + D, [at](std::vector<Val> &) { return Val::mkInt((int64_t)at); });
        S.funcs.back()->generated = true;
    }
    return true;
}
// JSON text of a value of a type (RFC 8259, no whitespace; characters below a blank as \\u00XX).
inline string jsonText(RefEnv *R, ref::Type *t, const Val &v);
inline string jsonString(const string &s) {
    string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + '"';
}
inline string jsonText(RefEnv *R, ref::Type *t, const Val &v) {
    char b[64];
    if (t->k == ref::Type::Int) { if (v.t != Val::Int) throw ref::Skip{"null int"}; return std::to_string((long long)v.i); }
    if (t->k == ref::Type::Float) { if (v.t != Val::Float) throw ref::Skip{"null float"}; snprintf(b, sizeof b, "%g", v.f); return b; }
    if (t->k == ref::Type::Bool) { if (v.t != Val::Bool) throw ref::Skip{"null bool"}; return v.b ? "true" : "false"; }
    if (t->k == ref::Type::Str) { if (v.t != Val::Str) throw ref::Skip{"null str"}; return jsonString(*v.s); }
    ref::Func *f = R->S.func(t->name + "_to_json");
    std::vector<Val> a{v};
    Val r = f->foreign ? f->native(a) : R->M->invoke(f, a);
    if (r.t != Val::Str) throw ref::Skip{"serializer"};
    return *r.s;
}
inline bool jsonMacro(RefEnv *R, ref::State &S, const std::vector<string> &args) {
    if (args.size() != 1) return false;
    ref::Type *t = S.named(args[0], false);
    if (!t || t->k != ref::Type::Struct || !t->defined) return false;
    std::vector<ref::Type *> todo{t};
    for (size_t i = 0; i < todo.size(); ++i) {
        ref::Type *c = todo[i];
        if (S.func(c->name + "_to_json")) continue;
        for (auto &f : c->fields) {
            auto k = f.second->k;
            if (k == ref::Type::Struct) { if (std::find(todo.begin(), todo.end(), f.second) == todo.end()) todo.push_back(f.second); }
            else if (k != ref::Type::Int && k != ref::Type::Float && k != ref::Type::Bool && k != ref::Type::Str && (k == ref::Type::Nullable || !S.func(f.second->name + "_to_json"))) return false;
        }
    }
    for (auto c : todo)
        if (!S.func(c->name + "_to_json")) {
            S.bind(c->name + "_to_json(" + c->name + "): str", [R, c](std::vector<Val> &a) {
                if (a[0].t != Val::Struct) throw ref::Skip{"null struct"};
                string o = "{";
                auto f = a[0].o->fields;
                for (size_t i = 0; i < f.size(); ++i) o += (i ? ",\"" : "\"") + c->fields[i].first + "\":" + jsonText(R, c->fields[i].second, f[i]);
                return R->str(o + "}"); });
            S.funcs.back()->generated = true;
        }
    return true;
}
inline size_t dictFind(std::vector<Val> &d, const Val &k) {
    if (k.t == Val::Null || k.t == Val::Float) throw ref::Skip{"key kind"};
    for (size_t i = 0; i < d.size(); i += 2) if (ref::equal(d[i], k)) return i;
    return d.size();
}
inline void bindStdRef(RefEnv &R) {
    RefEnv *P = &R;
    auto &S = R.S;
    S.macros.push_back({"array", [P](ref::State &St, const std::vector<string> &a, const string &as) { return arrayMacro(P, St, a, as); }});
    S.registerType("array_any"); S.registerType("array_str"); S.registerType("dict");
    auto put = [](std::vector<Val> &a) {
        auto &d = seq(a[0]);
        size_t i = dictFind(d, a[1]);
        if (i == d.size()) { d.push_back(a[1]); d.push_back(a[2]); } else d[i + 1] = a[2];
        return Val{};
    };
    auto create = [P, put](std::vector<Val> &a) {
        if (a.size() % 2) throw ref::Skip{"odd dict"};
        Val d = refNative(*P, {}, DICT);
        for (size_t i = 0; i < a.size(); i += 2) { std::vector<Val> x{d, a[i], a[i + 1]}; put(x); }
        return d;
    };
    auto exists = [](std::vector<Val> &a) { auto &d = seq(a[0]); return Val::mkBool(dictFind(d, a[1]) < d.size()); };
    auto get = [](std::vector<Val> &a) { auto &d = seq(a[0]); size_t i = dictFind(d, a[1]); return i < d.size() ? d[i + 1] : Val{}; };
    auto rem = [](std::vector<Val> &a) {
        auto &d = seq(a[0]);
        size_t i = dictFind(d, a[1]);
        if (i < d.size()) d.erase(d.begin() + i, d.begin() + i + 2);
        return Val{};
    };
    auto part = [P](int off) { return [P, off](std::vector<Val> &a) {
        auto d = seq(a[0]);
        std::vector<Val> o;
        for (size_t i = off; i < d.size(); i += 2) o.push_back(d[i]);
        return refNative(*P, o); }; };
    auto clear = [](std::vector<Val> &a) { seq(a[0]).clear(); return Val{}; };
    S.bind("dict(...): dict", create);
    S.bind("dict_put(dict, any, any): void", put);
    S.bind("dict_exists(dict, any): bool", exists);
    S.bind("dict_get(dict, any): any", get);
    S.bind("dict_remove(dict, any): void", rem);
    S.bind("dict_keys(dict): array_any", part(0));
    S.bind("dict_values(dict): array_any", part(1));
    S.bind("dict_clear(dict): void", clear);
    S.bind("dict_get_index(dict, str): any", get);
    S.bind("dict_set_index(dict, str, any): void", put);
    S.registerType("dict_str_int");
    S.bind("dict_str_int(...): dict_str_int", create);
    S.bind("dict_str_int_put(dict_str_int, str, int): void", put);
    S.bind("dict_str_int_exists(dict_str_int, str): bool", exists);
    S.bind("dict_str_int_get(dict_str_int, str): int", get);
    S.bind("dict_str_int_remove(dict_str_int, str): void", rem);
    S.bind("dict_str_int_keys(dict_str_int): array_str", part(0));
    S.bind("dict_str_int_clear(dict_str_int): void", clear);
    // strings
    auto text = [](const Val &v) -> const string & { if (v.t != Val::Str) throw ref::Skip{"not a string"}; return *v.s; };
    auto idx = [text](std::vector<Val> &a) {
        const string &s = text(a[0]);
        return Val::mkInt((signed char)s[pos(a[1], s.size())]); };
    S.constant("INT_MAX", S.tInt, Val::mkInt(2147483647));
    S.bind("strlen(str): int", [text](std::vector<Val> &a) { return Val::mkInt((int64_t)text(a[0]).size()); });
    S.bind("stridx(str, int): int", idx);
    S.bind("sget(str, int): int", idx);
    S.bind("strchr(str, int): int", [text](std::vector<Val> &a) {
        const string &s = text(a[0]);
        size_t p = s.find((char)a[1].i);
        return Val::mkInt(p == string::npos ? -1 : (int64_t)p); });
    S.bind("strcat(str, str, ...): str", [P, text](std::vector<Val> &a) {
        string o;
        for (auto &v : a) o += text(v);
        return P->str(o); });
    S.bind("substr(str, int, int): str", [P, text](std::vector<Val> &a) {
        const string &s = text(a[0]);
        int64_t b = a[1].i, e = a[2].i == -1 ? (int64_t)s.size() : a[2].i;
        if (b < 0 || b > e || (e > (int64_t)s.size() && b != e)) throw ref::Skip{"substr range"};
        return P->str(b == e ? "" : s.substr(b, e - b)); });
    S.bind("str_get_index(str, int): int", idx);
    S.bind("ston(str): float", [text](std::vector<Val> &a) { return Val::mkFloat(strtod(text(a[0]).c_str(), 0)); });
    S.bind("str_to_int(str): int", [text](std::vector<Val> &a) { return Val::mkInt(strtoll(text(a[0]).c_str(), 0, 10)); });
    S.bind("int_to_str(int): str", [P](std::vector<Val> &a) { return P->str(std::to_string((long long)a[0].i)); });
    S.bind("ntos(...): str", [P](std::vector<Val> &a) { char b[64]; snprintf(b, 64, "%g", a[0].t == Val::Float ? a[0].f : a[0].t == Val::Int ? (double)a[0].i : 0.0); return P->str(b); });
    S.bind("stoi(str, int): int", [text](std::vector<Val> &a) { return Val::mkInt(strtoll(text(a[0]).c_str(), 0, (int)a[1].i)); });
    for (auto n : {"time(): int", "srand(int): void", "rand(): int", "exit(int): void", "bool_to_json", "str_to_json", "int_to_json", "float_to_json", "get_executing_line", "debug_break"})
        S.bind(n, [](std::vector<Val> &) -> Val { throw ref::Skip{"not modelled"}; });
    S.bind("floor(float): float", [](std::vector<Val> &a) { return Val::mkFloat(std::floor(a[0].f)); });
    S.bind("ceil(float): float", [](std::vector<Val> &a) { return Val::mkFloat(std::ceil(a[0].f)); });
    S.bind("get_function_index(str): any", [P, text](std::vector<Val> &a) {
        ref::Func *f = P->S.func(text(a[0]));
        return Val::mkInt(f && !f->foreign ? f->index : -1); });
    S.bind("call_function(any, ...): any", [P](std::vector<Val> &a) {
        if (a[0].t != Val::Int) throw ref::Skip{"call_function"};
        for (auto f : P->S.funcs)
            if (!f->foreign && f->index == a[0].i) {
                std::vector<Val> x(a.begin() + 1, a.end());
                if (x.size() != f->args.size()) throw ref::Skip{"call_function arity"};
                return P->M->invoke(f, x);
            }
        throw ref::Skip{"call_function index"}; });
    // macros of the library which programs of the base alphabets do not use
    S.macros.push_back({"delegate", [P](ref::State &St, const std::vector<string> &a, const string &as) { return delegateMacro(P, St, a, as); }});
    S.macros.push_back({"json", [P](ref::State &St, const std::vector<string> &a, const string &) { return jsonMacro(P, St, a); }});
}
// ------------------------------------------------------------- boxes: natives which mark one value
struct Box { Tiny_Value v; long *freed; };
static void boxMark(void *p) { Tiny_ProtectFromGC(((Box *)p)->v); }
static void boxFree(Tiny_Context *, void *p) { if (((Box *)p)->freed) ++*((Box *)p)->freed; delete (Box *)p; }
static const Tiny_NativeProp boxProp = {"box", boxMark, boxFree};
static TINY_FOREIGN_FUNCTION(fBox) { if (gcInForeign) thread->maxNumObjects = 0; return Tiny_NewNative(thread, new Box{args[0], nullptr}, &boxProp); }
static TINY_FOREIGN_FUNCTION(fUnbox) { return ((Box *)Tiny_ToAddr(args[0]))->v; }
static TINY_FOREIGN_FUNCTION(fSetBox) { ((Box *)Tiny_ToAddr(args[0]))->v = args[1]; return Tiny_Null; }

// ------------------------------------------------------------- deep dumps, containers included
inline Tiny_Value callForeign(Tiny_StateThread *t, const char *fn, std::vector<Tiny_Value> a) {
    const Tiny_Symbol *s = Tiny_FindFuncSymbol((Tiny_State *)t->state, fn);
    return s->foreignFunc.callee(t, a.data(), (int)a.size());
}
// Any requested array type's functions read every array.
static std::vector<string> arrayNames = {"array_any"};
inline Tiny_Value arrayFn(Tiny_StateThread *t, const char *fn, std::vector<Tiny_Value> a) {
    for (auto &n : arrayNames) if (Tiny_FindFuncSymbol((Tiny_State *)t->state, (n + fn).c_str())) return callForeign(t, (n + fn).c_str(), a);
    mc::fail("no array type whose values could be shown");
    return Tiny_Null;
}
inline void deepT(string &out, Tiny_StateThread *t, Tiny_Value v, int depth) {
    if (v.type == TINY_VAL_STRUCT) {
        if (!depth) { out += "{..}"; return; }
        out += '{';
        for (int k = 0, n = shim_field_count(v); k < n; ++k) { if (k) out += ','; deepT(out, t, Tiny_GetField(v, k), depth - 1); }
        out += '}';
        return;
    }
    if (v.type != TINY_VAL_NATIVE) return showT(out, v);
    const Tiny_NativeProp *p = Tiny_GetProp(v);
    if (!p || p == &natProp) return showT(out, v);
    if (!depth) { out += "<..>"; return; }
    if (p == &boxProp) { out += "box("; deepT(out, t, ((Box *)Tiny_ToAddr(v))->v, depth - 1); out += ')'; return; }
    if (!strcmp(p->name, "array")) {
        out += '[';
        for (Tiny_Int k = 0, n = Tiny_ToInt(arrayFn(t, "_len", {v})); k < n; ++k) {
            if (k) out += ',';
            deepT(out, t, arrayFn(t, "_get", {v, Tiny_NewInt(k)}), depth - 1);
        }
        out += ']';
        return;
    }
    Tiny_Value ks = callForeign(t, "dict_keys", {v});
    std::vector<string> e;
    for (Tiny_Int k = 0, n = Tiny_ToInt(arrayFn(t, "_len", {ks})); k < n; ++k) {
        Tiny_Value key = arrayFn(t, "_get", {ks, Tiny_NewInt(k)});
        string x;
        deepT(x, t, key, depth - 1);
        x += ':';
        deepT(x, t, callForeign(t, "dict_get", {v, key}), depth - 1);
        e.push_back(x);
    }
    std::sort(e.begin(), e.end());
    out += '<';
    for (auto &x : e) out += x + ';';
    out += '>';
}
inline void deepR(string &out, const Val &v, int depth) {
    if (v.t == Val::Struct) {
        if (!depth) { out += "{..}"; return; }
        out += '{';
        for (size_t k = 0; k < v.o->fields.size(); ++k) { if (k) out += ','; deepR(out, v.o->fields[k], depth - 1); }
        out += '}';
        return;
    }
    if (v.t != Val::Native || v.o->id > 0) return ref::show(out, v);
    if (!depth) { out += "<..>"; return; }
    auto &f = v.o->fields;
    if (v.o->id == BOX) { out += "box("; deepR(out, f[0], depth - 1); out += ')'; return; }
    if (v.o->id == ARR) {
        out += '[';
        for (size_t k = 0; k < f.size(); ++k) { if (k) out += ','; deepR(out, f[k], depth - 1); }
        out += ']';
        return;
    }
    std::vector<string> e;
    for (size_t k = 0; k < f.size(); k += 2) { string x; deepR(x, f[k], depth - 1); x += ':'; deepR(x, f[k + 1], depth - 1); e.push_back(x); }
    std::sort(e.begin(), e.end());
    out += '<';
    for (auto &x : e) out += x + ';';
    out += '>';
}
static TINY_FOREIGN_FUNCTION(fDump) {
    string &o = logOf(thread)->out;
    o += "dump(";
    for (int i = 0; i < count; ++i) { if (i) o += ','; deepT(o, thread, args[i], 3); }
    o += ");";
    return Tiny_Null;
}
// Calls a script function and uses its own arguments afterwards.
static TINY_FOREIGN_FUNCTION(fDuring) {
    int f = Tiny_GetFunctionIndex(thread->state, Tiny_ToString(args[0]));
    if (gcInForeign) thread->maxNumObjects = 0;
    for (int k = 0; k < 2; ++k) {
        Tiny_Value r = Tiny_CallFunction(thread, f, args + 2, count - 2);
        string &o = logOf(thread)->out;
        o += "during(";
        deepT(o, thread, r, 3);
        for (int i = 1; i < count; ++i) { o += ','; deepT(o, thread, args[i], 3); }
        o += ");";
    }
    return args[1];
}
// An operation chosen by the explorer.
static std::vector<int> script;
static size_t scriptPos;
static TINY_FOREIGN_FUNCTION(fNextOp) { return Tiny_NewInt(scriptPos < script.size() ? script[scriptPos++] : -1); }
inline void bindExtraImpl(Tiny_State *s) {
    Tiny_RegisterType(s, "box");
    Tiny_BindFunction(s, "box(any): box", fBox);
    Tiny_BindFunction(s, "unbox(box): any", fUnbox);
    Tiny_BindFunction(s, "setbox(box, any): void", fSetBox);
    Tiny_BindFunction(s, "dump(...): void", fDump);
    Tiny_BindFunction(s, "nextop(): int", fNextOp);
    Tiny_BindFunction(s, "during(str, any, ...): any", fDuring);
}
inline void bindExtraRef(RefEnv &R) {
    RefEnv *P = &R;
    auto &S = R.S;
    S.registerType("box");
    S.bind("box(any): box", [P](std::vector<Val> &a) { return refNative(*P, {a[0]}, BOX); });
    S.bind("unbox(box): any", [](std::vector<Val> &a) { return seq(a[0])[0]; });
    S.bind("setbox(box, any): void", [](std::vector<Val> &a) { seq(a[0])[0] = a[1]; return Val{}; });
    S.bind("dump(...): void", [P](std::vector<Val> &a) {
        P->log += "dump(";
        for (size_t i = 0; i < a.size(); ++i) { if (i) P->log += ','; deepR(P->log, a[i], 3); }
        P->log += ");";
        return Val{}; });
    S.bind("during(str, any, ...): any", [P](std::vector<Val> &a) {
        ref::Func *f = a[0].t == Val::Str ? P->S.func(*a[0].s) : nullptr;
        if (!f || f->foreign || f->args.size() != a.size() - 2) throw ref::Skip{"during"};
        for (int k = 0; k < 2; ++k) {
            std::vector<Val> x(a.begin() + 2, a.end());
            Val r = P->M->invoke(f, x);
            P->log += "during(";
            deepR(P->log, r, 3);
            for (size_t i = 1; i < a.size(); ++i) { P->log += ','; deepR(P->log, a[i], 3); }
            P->log += ");";
        }
        return a[1]; });
    S.bind("nextop(): int", [](std::vector<Val> &) { return Val::mkInt(scriptPos < script.size() ? script[scriptPos++] : -1); });
}
// A program which performs the operations the explorer chooses.  `vars` declares the variables,
// the operations use them; afterEach is performed after every operation.
inline string machine(const string &decls, const string &vars, const std::vector<string> &ops, const string &afterEach, const string &atEnd, bool local) {
    string s = decls;
    auto cases = [&](bool calls) {
        string r;
        for (size_t i = 0; i < ops.size(); ++i)
            r += string(i ? " else " : "") + "if o == " + std::to_string(i) + " { " + (calls ? "op" + std::to_string(i) + "()" : ops[i]) + " }\n";
        return r;
    };
    if (local) return s + "func main() {\n" + vars + "\no := nextop()\nwhile o >= 0 {\n" + cases(false) + afterEach + "\no = nextop()\n}\n" + atEnd + "\n}\nmain()\n";
    s += vars + "\n";
    for (size_t i = 0; i < ops.size(); ++i) s += "func op" + std::to_string(i) + "() { " + ops[i] + " }\n";
    return s + "o := nextop()\nwhile o >= 0 {\n" + cases(true) + afterEach + "\no = nextop()\n}\n" + atEnd + "\n";
}
// One compiled machine per process and option set.
struct Machine {
    Opt opt;
    std::function<string()> text;
    Duo *d = nullptr;
    bool run(const std::vector<int> &seq) {
        if (!d) {
            d = new Duo(opt);
            d->reset = [] { scriptPos = 0; };
            if (!d->compile(text())) mc::fail("the program is rejected: %s\n%s\n", d->I.err.c_str(), text().c_str());
        }
        script = seq;
        d->h = mc::hash(seq.data(), seq.size() * sizeof(int));
        return d->run();
    }
};
inline string showSeq(const std::vector<int> &q, const std::vector<string> &ops) {
    string s;
    for (int k : q) s += ops[k] + "\n";
    return s;
}
inline Opt stdOpt() {
    Opt o;
    o.binder = [](Tiny_State *s) { bindStdImpl(s); bindExtraImpl(s); };
    o.refBinder = [](RefEnv &R) { bindStdRef(R); bindExtraRef(R); };
    return o;
}
}  // namespace df
