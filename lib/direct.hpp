// Calls bound functions of the library without a program around them.
#pragma once
#include "stdref.hpp"
using std::string;
struct Direct {
    Tiny_State *s;
    Tiny_StateThread t;
    std::map<string, Tiny_ForeignFunction> f;
    df::Log log;
    explicit Direct(const char *decls, std::function<void(Tiny_State *)> bind = nullptr) {
        s = Tiny_CreateState();
        df::bindStdImpl(s);
        if (bind) bind(s);
        Tiny_CompileResult r = Tiny_CompileString(s, "main", decls);
        if (r.type != TINY_COMPILE_SUCCESS) mc::fail("rejected: %s", r.error.msg);
        up();
    }
    void up() { Tiny_InitThread(&t, s); Tiny_StartThread(&t); t.userdata = &log; t.maxNumObjects = INT_MAX; }
    // Everything made so far is forgotten when it is a lot.
    void trim(int n = 2000) { if (t.numObjects > n) { Tiny_DestroyThread(&t); up(); } }
    Tiny_Value operator()(const char *n, std::initializer_list<Tiny_Value> a) { return call(n, a.begin(), (int)a.size()); }
    Tiny_Value call(const char *n, const Tiny_Value *a, int c) {
        auto it = f.find(n);
        if (it == f.end()) {
            const Tiny_Symbol *y = Tiny_FindFuncSymbol(s, n);
            if (!y || y->type != TINY_SYM_FOREIGN_FUNCTION) mc::fail("no function %s", n);
            it = f.emplace(n, y->foreignFunc.callee).first;
        }
        return it->second(&t, a, c);
    }
    // A script function
    Tiny_Value script(const char *n, std::initializer_list<Tiny_Value> a) {
        t.maxNumObjects = INT_MAX;
        return Tiny_CallFunction(&t, Tiny_GetFunctionIndex(s, n), a.begin(), (int)a.size());
    }
    Tiny_Value str(const string &x) { return Tiny_NewStringCopy(&t, x.data(), x.size()); }
};
static inline string shown(Tiny_Value v) { string s; df::showT(s, v); return s; }
