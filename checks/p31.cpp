// P31: files, printing and input.
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <set>
#include "stdref.hpp"
#include "gen.hpp"
using namespace gen;
using df::Val;
using std::string;
// ---------------------------------------------------------------- the world outside the program
struct Handle { string name; bool r, w, app, fresh = true, open = true, eof = false; size_t pos = 0; int last = 0; };
static std::map<string, string> initial;      // files which exist before the program runs
static string typed;                          // what is typed into the program
static std::vector<string> table;             // byte strings the host hands to the program
static struct { std::map<string, string> files; std::deque<Handle> handles; string out; size_t in = 0; void clear() { files = initial; handles.clear(); out.clear(); in = 0; } } W;
static string dirOf;                          // the scratch directory of this check
static bool capturing;
static int pipeFd = 60;
static string piped; static bool usePipe;
static void capture() {
    if (capturing) return;
    capturing = true;
    string d = dirOf + "/" + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) mc::fail("no scratch directory");
    fflush(stdout);
    int fd = memfd_create("out", 0);
    dup2(fd, 1);
    close(fd);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
}
static void putFile(const string &n, const string &s) { int fd = open(n.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); size_t k = 0; while (k < s.size()) { ssize_t w = write(fd, s.data() + k, s.size() - k); if (w <= 0) break; k += (size_t)w; } close(fd); }
static string getFile(int fd) { string s; struct stat st; fstat(fd, &st); if (st.st_size > (1 << 28)) return "huge " + I(st.st_size); s.resize((size_t)st.st_size); size_t k = 0; while (k < s.size()) { ssize_t r = pread(fd, &s[k], s.size() - k, (off_t)k); if (r <= 0) break; k += (size_t)r; } s.resize(k); return s; }
static std::set<string> made;                 // files of the run before
static bool clean = false;                    // the run before has come to its end
static void prepare() {
    capture();
    if (!clean) for (auto &e : std::filesystem::directory_iterator(".")) made.insert(e.path().filename().string());
    clean = false;
    for (auto &n : made) unlink(n.c_str());
    made.clear();
    for (auto &f : initial) { putFile(f.first, f.second); made.insert(f.first); }
    fflush(stdout);
    if (ftruncate(1, 0)) mc::fail("no output file");
    lseek(1, 0, SEEK_SET);
    static FILE *in = nullptr;
    static string *buf = nullptr;
    if (in && in != stdin) abort();
    if (in) fclose(in);
    delete buf;
    buf = new string(typed.empty() ? string("x") : typed);
    in = fmemopen(&(*buf)[0], buf->size(), "rb");
    if (typed.empty()) fgetc(in);
    stdin = in;
    if (usePipe) {
        int p[2];
        if (pipe(p)) mc::fail("no pipe");
        fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
        if (write(p[1], piped.data(), piped.size()) != (ssize_t)piped.size()) mc::fail("pipe too small");
        close(p[1]);
        dup2(p[0], pipeFd);
        close(p[0]);
    }
}
static string hideAddresses(const string &s) {
    string o;
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, 4, " at ") == 0) {
            size_t e = s.find('>', i);
            if (e != string::npos && e - i < 40) { o += " at ?>"; i = e + 1; continue; }
        }
        o += s[i++];
    }
    return o;
}
// ---------------------------------------------------------------- the reference
static const string &text(const Val &v) { if (v.t != Val::Str) throw ref::Skip{"not a string"}; return *v.s; }
static void repr(string &o, const Val &v, int depth) {
    char b[512];
    if (depth > 60) throw ref::Skip{"cyclic value"};
    switch (v.t) {
        case Val::Null: o += "<null>"; break;
        case Val::Bool: o += v.b ? "true" : "false"; break;
        case Val::Int: o += I(v.i); break;
        case Val::Float: snprintf(b, sizeof b, "%f", v.f); o += b; break;
        case Val::Str: o += '"' + *v.s + '"'; break;
        case Val::Struct: { o += "struct {"; auto &f = v.o->fields; for (size_t k = 0; k < f.size(); ++k) { if (k) o += ", "; repr(o, f[k], depth + 1); } o += '}'; break; }
        case Val::Native:
            if (v.o->id == df::ARR) { o += '['; auto &f = v.o->fields; for (size_t k = 0; k < f.size(); ++k) { if (k) o += ", "; repr(o, f[k], depth + 1); } o += ']'; }
            else if (v.o->id == df::DICT) o += "<native 'dict' at ?>";
            else if (v.o->id == -20) o += "<native 'file' at ?>";
            else throw ref::Skip{"other native"};
            break;
        default: throw ref::Skip{"opaque value"};
    }
}
static void format(string &o, const std::vector<Val> &a) {
    const string &f = text(a[0]);
    char b[512];
    size_t arg = 1;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%' || i + 1 == f.size()) { o += f[i]; continue; }
        char c = f[++i];
        if (c == '%') { o += '%'; continue; }
        if (!strchr("ifscq", c) || !c) throw ref::Skip{"unknown directive"};
        if (arg >= a.size()) throw ref::Skip{"too few values"};
        const Val &v = a[arg++];
        switch (c) {
            case 'i': if (v.t != Val::Int) throw ref::Skip{"not an int"}; o += I(v.i); break;
            case 'f': if (v.t != Val::Float) throw ref::Skip{"not a float"}; snprintf(b, sizeof b, "%f", v.f); o += b; break;
            case 's': o += text(v); break;
            case 'c': if (v.t != Val::Int || v.i < 0 || v.i > 255) throw ref::Skip{"not a character"}; o += (char)v.i; break;
            case 'q': repr(o, v, 0); break;
        }
    }
}
static bool writing(const string &n) { for (auto &h : W.handles) if (h.open && h.w && h.name == n) return true; return false; }
static bool inUse(const string &n) { for (auto &h : W.handles) if (h.open && h.name == n) return true; return false; }
static bool exists(const string &n) { return W.files.count(n); }
static bool creatable(const string &n) { return !n.empty() && n.find('/') == string::npos && n.find('\0') == string::npos; }
static void bindRef(df::RefEnv &R) {
    df::RefEnv *P = &R;
    auto &S = R.S;
    auto num = [](const Val &v) { if (v.t != Val::Int) throw ref::Skip{"not a number"}; return v.i; };
    auto hd = [](const Val &v) -> Handle & { if (v.t != Val::Native || v.o->id != -20) throw ref::Skip{"no file"}; Handle &h = W.handles[(size_t)v.o->fields[0].i]; if (!h.open) throw ref::Skip{"closed file"}; return h; };
    S.registerType("file");
    S.bind("fopen(str, str): file", [P](std::vector<Val> &a) -> Val {
        const string n = text(a[0]), m = text(a[1]);
        if (n.find('/') != string::npos || n.find('\0') != string::npos || m.find('\0') != string::npos) { if (n.find("/dev/fd/") && n.find("no/")) throw ref::Skip{"path"}; }
        Handle h;
        h.name = n;
        if (m.empty() || !strchr("rwa", m[0])) return Val{};
        bool plus = false;
        for (size_t k = 1; k < m.size(); ++k) { if (m[k] == '+') plus = true; else if (m[k] != 'b') throw ref::Skip{"mode"}; }
        h.r = m[0] == 'r' || plus; h.w = m[0] != 'r' || plus; h.app = m[0] == 'a';
        if (usePipe && n == "/dev/fd/60") { if (h.w || m[0] != 'r') throw ref::Skip{"pipe"}; W.files[n] = piped; }
        else if (m[0] == 'r' ? !exists(n) : !exists(n) && !creatable(n)) return Val{};
        if (h.w ? inUse(n) : writing(n)) throw ref::Skip{"file in use"};
        if (m[0] == 'w') W.files[n].clear();
        if (m[0] == 'a') W.files[n];
        W.handles.push_back(h);
        Val f = df::refNative(*P, {Val::mkInt((int64_t)W.handles.size() - 1)}, -20);
        return f;
    });
    S.bind("fclose(file): void", [hd](std::vector<Val> &a) { hd(a[0]).open = false; return Val{}; });
    S.bind("fread(file, int): str", [=](std::vector<Val> &a) {
        Handle &h = hd(a[0]);
        int64_t n = num(a[1]);
        if (n < 0) throw ref::Skip{"negative count"};
        if (!h.r || !n) return P->str("");
        if (h.last == 2 || (h.app && h.fresh)) throw ref::Skip{"reading after writing"};
        const string &s = W.files[h.name];
        string r = h.pos < s.size() ? s.substr(h.pos, (size_t)n) : "";
        h.pos += r.size(); h.last = 1; h.fresh = false;
        if ((int64_t)r.size() < n) h.eof = true;
        return P->str(r);
    });
    S.bind("fwrite(file, str, ...): void", [=](std::vector<Val> &a) {
        Handle &h = hd(a[0]);
        string s = text(a[1]);
        if (a.size() > 3) throw ref::Skip{"arguments"};
        if (a.size() == 3) { int64_t n = num(a[2]); if (n < 0) throw ref::Skip{"negative count"}; if ((uint64_t)n < s.size()) s.resize((size_t)n); }
        if (!h.w || s.empty()) return Val{};
        if (h.last == 1 && !h.eof) throw ref::Skip{"writing after reading"};
        string &f = W.files[h.name];
        if (h.app) h.pos = f.size();
        if (h.pos > (1 << 26)) throw ref::Skip{"large"};
        if (f.size() < h.pos + s.size()) f.resize(h.pos + s.size());
        f.replace(h.pos, s.size(), s);
        h.pos += s.size(); h.last = 2; h.fresh = false;
        return Val{};
    });
    S.bind("fseek(file, int): void", [=](std::vector<Val> &a) { Handle &h = hd(a[0]); int64_t n = num(a[1]); if (n < 0 || usePipe) throw ref::Skip{"position"}; h.pos = (size_t)n; h.last = 0; h.eof = false; h.fresh = false; return Val{}; });
    S.bind("fsize(file): int", [=](std::vector<Val> &a) { Handle &h = hd(a[0]); if (usePipe) throw ref::Skip{"size"}; h.pos = 0; h.last = 0; h.eof = false; h.fresh = false; return Val::mkInt((int64_t)W.files[h.name].size()); });
    S.bind("read_file(str): str", [=](std::vector<Val> &a) -> Val {
        const string &n = text(a[0]);
        if (n.find('\0') != string::npos) throw ref::Skip{"path"};
        if (usePipe && n == "/dev/fd/60") return P->str(piped);
        if (!exists(n)) { if (n.find('/') != string::npos && n.find("no/")) throw ref::Skip{"path"}; return Val{}; }
        if (writing(n)) throw ref::Skip{"file in use"};
        return P->str(W.files[n]);
    });
    S.bind("write_file(str, str): bool", [=](std::vector<Val> &a) {
        const string &n = text(a[0]);
        if (n.find('\0') != string::npos) throw ref::Skip{"path"};
        if (n.find('/') != string::npos && n.find("no/")) throw ref::Skip{"path"};
        if (inUse(n)) throw ref::Skip{"file in use"};
        if (!creatable(n)) return Val::mkBool(false);
        W.files[n] = text(a[1]);
        return Val::mkBool(true);
    });
    S.bind("input(...): str", [=](std::vector<Val> &a) {
        if (!a.empty()) W.out += text(a[0]);
        string r;
        while (W.in < typed.size() && typed[W.in] != '\n') r += typed[W.in++];
        if (W.in < typed.size()) ++W.in;
        return P->str(r);
    });
    S.bind("printf(str, ...): void", [](std::vector<Val> &a) { format(W.out, a); return Val{}; });
    S.bind("bytes(int): str", [P](std::vector<Val> &a) { return P->str(table.at((size_t)a[0].i)); });
}
static TINY_FOREIGN_FUNCTION(fBytes) { const string &s = table.at((size_t)Tiny_ToInt(args[0])); return Tiny_NewStringCopy(thread, s.data(), s.size()); }
static df::Opt opt;
// ---------------------------------------------------------------- running and comparing
static string seen(const string &s) { string o; for (unsigned char c : s.substr(0, 300)) { char b[8]; if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; } return o + (s.size() > 300 ? "... (" + I((long long)s.size()) + " bytes)" : ""); }
static void outcome(const string &src) {
    fflush(stdout);
    string got = hideAddresses(getFile(1)), want = hideAddresses(W.out);
    if (got != want) mc::fail("printed\n%s\nexpected\n%s\n--- program\n%s", seen(got).c_str(), seen(want).c_str(), df::clip(src).c_str());
    for (auto &f : W.files) {
        if (f.first.find('/') != string::npos) continue;
        made.insert(f.first);
        if (writing(f.first)) continue;
        int fd = open(f.first.c_str(), O_RDONLY);
        if (fd < 0) mc::fail("the file %s does not exist\n--- program\n%s", f.first.c_str(), df::clip(src).c_str());
        string s = getFile(fd);
        close(fd);
        if (s != f.second) mc::fail("the file %s contains\n%s\nexpected\n%s\n--- program\n%s", f.first.c_str(), seen(s).c_str(), seen(f.second).c_str(), df::clip(src).c_str());
    }
    size_t n = 0;
    for (auto &e : std::filesystem::directory_iterator(".")) { ++n; string b = e.path().filename().string(); if (!W.files.count(b)) mc::fail("there is a file %s which nobody made\n--- program\n%s", seen(b).c_str(), df::clip(src).c_str()); }
    if (n > 40) mc::fail("scratch directory not clean");
    clean = true;
}
// `before` is called ahead of each of the two runs.
static int phase;
static void before() { if (phase++ == 0) W.clear(); else prepare(); }
static void program(string src) {
    if (src.find("array_any") != string::npos) src = "use array(\"any\") as array_any " + src;
    df::Duo D(opt);
    D.reset = before;
    if (!D.compile(src)) mc::fail("the program is rejected: %s", D.I.err.c_str());
    phase = 0;
    if (D.run()) outcome(src);
}
// ---------------------------------------------------------------- histories of file operations
struct Cfg { std::vector<string> ops; int k; };
static const std::vector<string> OPS = {
    "if !fo { f = fopen(\"x\", \"r\") fo = f != null }", "if !fo { f = fopen(\"x\", \"w\") fo = f != null }", "if !fo { f = fopen(\"x\", \"a\") fo = f != null }", "if !fo { f = fopen(\"x\", \"r+\") fo = f != null }", "if !fo { f = fopen(\"x\", \"w+\") fo = f != null }", "if !fo { f = fopen(\"x\", \"a+\") fo = f != null }",
    "if fo { fwrite(f, \"abcde\") }", "if fo { fwrite(f, bytes(0), 2) }", "if fo { fwrite(f, bytes(1)) }", "if fo { os(fread(f, 3)) }", "if fo { os(fread(f, 1000)) }", "if fo { fseek(f, 0) }", "if fo { fseek(f, 2) }", "if fo { fseek(f, 9) }", "if fo { oi(fsize(f)) }", "if fo { fclose(f) fo = false }",
    "s = read_file(\"x\") if s == null { oi(-7) } else { os(s) }", "ob(write_file(\"x\", \"new\"))", "if !go { g = fopen(\"x\", \"r\") go = g != null }", "if !go { g = fopen(\"y\", \"w\") go = g != null }", "if go { s = fread(g, 2) os(s) if fo { fwrite(f, s) } }", "if go { fwrite(g, bytes(1)) }", "if go { fclose(g) go = false }", "os(s) s = \"other\""};
static df::Machine mach[8];
static void history(const std::vector<int> &q, int init, int mode) {
    initial.clear(); typed.clear();
    if (init == 1) initial["x"] = "";
    if (init == 2) initial["x"] = "0123456789";
    if (init == 3) initial["x"] = string("\0\n\xff\0z", 5), initial["y"] = "old content";
    df::Machine &m = mach[mode];
    if (!m.text) {
        m.opt = opt;
        if (mode == 2) m.opt.gc = 0;
        m.text = [mode] { return df::machine("", "f := fopen(\"no/file\", \"r\") g := f fo := false go := false s := \"s\"", OPS, "ob(fo) ob(go)", "if fo { fclose(f) } if go { fclose(g) }", mode == 1); };
    }
    if (!m.d) {
        m.d = new df::Duo(m.opt);
        m.d->reset = [] { df::scriptPos = 0; before(); };
        if (!m.d->compile(m.text())) mc::fail("the program is rejected: %s", m.d->I.err.c_str());
    }
    phase = 0;
    if (m.run(q)) outcome("operations: " + df::showSeq(q, OPS));
}
static void histories(const char *name, const std::vector<int> &ops, int k, std::vector<int> inits, std::vector<int> modes) {
    uint64_t n = mc::power(ops.size(), k);
    mc::family(name, n * inits.size() * modes.size(), [=](uint64_t i) {
        int mode = modes[i / n / inits.size()], init = inits[i / n % inits.size()];
        std::vector<int> q;
        for (int j = 0; j < k; ++j) { q.push_back(ops[i % ops.size()]); i /= ops.size(); }
        if (k > 3 && ((q[0] >= 6 && q[0] <= 15) || (q[0] >= 20 && q[0] <= 22))) return;   // does nothing: a shorter history
        history(q, init, mode);
    });
}
static string fill(size_t n, int kind) { string s(n, 'x'); for (size_t k = 0; k < n; ++k) s[k] = kind == 0 ? (char)('a' + k % 23) : kind == 1 ? (char)(k * 7 + k / 251) : kind == 2 ? (char)0 : kind == 3 ? '\n' : (char)(k % 64 == 63 ? '\n' : 'A' + k % 29); return s; }
static std::vector<size_t> lengths(size_t dense, size_t top) { std::vector<size_t> v; for (size_t k = 0; k < dense; ++k) v.push_back(k); for (size_t p = 256; p <= top; p *= 2) for (int e = -2; e <= 2; ++e) if (p + e >= dense) v.push_back(p + e); return v; }
// ---------------------------------------------------------------- printing
static const string POOL = "struct P { a: int b: str } struct Q { p: P l: any } use array(\"int\") as ai use array(\"P\") as ap use array(\"str\") as sl use array(\"float\") as fl use array(\"bool\") as bl func nop(): P? { } i0 := 7 s0 := \"glob\"\n";
static const std::vector<string> INTS = {"0", "7", "-1", "9223372036854775807", "-9223372036854775807 - 1", "1234567890123", "i0"}, FLOATS = {"0.5", "-0.25", "10000000000.0", "1.0 / 0.0", "123456.789", "1" + string(300, '0') + ".0", "0.0", "-0.000000001"},
                                 STRS = {"\"lit\"", "\"\"", "\"%i %s %%\"", "bytes(0)", "bytes(1)", "bytes(2)", "s0", "strcat(s0, \"!\")", "\"a\\nb\\\"c\\\\\""}, CHARS = {"'c'", "0", "10", "255", "37", "'%'"},
                                 ANYS = {"null", "true", "1 == 2", "42", "-1.5", "\"str\"", "bytes(0)", "new P{1, \"x\"}", "new Q{new P{2, \"y\"}, null}", "new Q{new P{-3, \"\"}, cast(new P{4, \"z\"}, any)}", "ai()", "ai(1)", "ai(1, 2, 3)", "ap(new P{1, \"q\"}, new P{2, bytes(0)})", "array_any(ai(1), ai(), null, 2.5)", "dict(\"k\", 1)", "sl(\"\", \"b\")", "nop()", "i0", "bytes(1)", "array_any(new Q{new P{1, \"n\"}, cast(ai(5), any)})", "fl(0.5, -10000000000.0)", "bl(true, false)", "9007199254740993", "bytes(3)", "array_any(null, 1)", "array_any(bytes(3), null, bytes(3))", "new Q{new P{0, bytes(3)}, null}"};
static const std::vector<string> *valuesOf(char c) { return c == 'i' ? &INTS : c == 'f' ? &FLOATS : c == 's' ? &STRS : c == 'c' ? &CHARS : &ANYS; }
static const std::vector<string> ATOM = {"%i", "%f", "%s", "%c", "%q", "%%", "x", "\\n", " ", "i", "s%%", "\\\"", "0", "q%%c"};
static void printing(const std::vector<string> &atoms, size_t pick, bool heap, const string &tail = "") {
    initial.clear(); typed.clear();
    table = {string("h\0p", 3), fill(5000, 1), "plain", ""};
    string f, args;
    for (auto &a : atoms) {
        f += a;
        if (a.size() == 2 && a[0] == '%' && a[1] != '%') { auto v = valuesOf(a[1]); args += ", " + (*v)[pick % v->size()]; pick = pick / v->size() + pick % v->size() * 3 + 1; }
    }
    program(POOL + "printf(" + (heap ? "hs(\"" + f + "\")" : "\"" + f + "\"") + args + ") " + tail);
}
int main(int argc, char **argv) {
    char tmpl[] = "/tmp/p31-XXXXXX";
    dirOf = mkdtemp(tmpl);
    int rc = mc::drive(argc, argv, [] {
        opt = df::stdOpt();
        auto im = opt.binder; auto re = opt.refBinder;
        opt.binder = [im](Tiny_State *s) { im(s); Tiny_BindStandardIO(s); Tiny_BindFunction(s, "bytes(int): str", fBytes); };
        opt.refBinder = [re](df::RefEnv &R) { re(R); bindRef(R); };
        opt.checkGlobals = false;
        table = {string("p\0q\xff", 4), fill(9000, 1)};
        bool th = mc::thorough;
        std::vector<int> all;
        for (size_t k = 0; k < OPS.size(); ++k) all.push_back((int)k);
        histories("files", all, 3, {0, 1, 2, 3}, {0, 1});
        if (th) histories("files-4", all, 4, {0, 2, 3}, {0}); else histories("files-4", all, 4, {2}, {0});
        histories("files-gc", all, 3, {2}, {2});
        histories("update", {3, 4, 6, 9, 11, 12, 14, 15}, th ? 7 : 5, {2}, {0});
        histories("read", {0, 9, 10, 12, 13, 14, 15, 18, 20}, th ? 6 : 5, {2}, {0});
        histories("write", {1, 2, 6, 7, 8, 11, 13, 15}, th ? 7 : 5, {2}, {1});
        // contents
        static std::vector<size_t> LEN = lengths(300, mc::thorough ? 1 << 22 : 1 << 18), CHUNK = {1, 2, 3, 7, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 1 << 20, 2147483646, 2147483647, 4294967296, 9007199254740993};
        mc::family("contents", LEN.size() * 5, [](uint64_t i) {
            initial.clear(); typed.clear();
            string s = fill(LEN[i / 5], (int)(i % 5));
            initial["a"] = s;
            table = {s};
            program("os(read_file(\"a\")) ob(write_file(\"b\", bytes(0))) ob(write_file(\"c\", read_file(\"a\"))) f := fopen(\"d\", \"w\") fwrite(f, bytes(0)) fclose(f) g := fopen(\"a\", \"rb\") n := fsize(g) oi(n) x := fread(g, n) ob(x == bytes(0)) oi(strlen(x)) os(fread(g, 1)) fclose(g) "
                    "h := fopen(\"e\", \"wb\") fwrite(h, bytes(0), n / 2) fwrite(h, x, n) fwrite(h, x, n + 1) fwrite(h, x, 0) fclose(h)");
        });
        static std::vector<string> BY;
        for (int b = 0; b < 256; ++b) BY.push_back(string(1, (char)b));
        static auto edge = [](uint64_t b) { return mc::thorough || b < 16 || (b >= 34 && b < 40) || (b >= 126 && b < 130) || b > 251 || b == 92 || b == 105; };
        mc::family("bytes", 65536, [](uint64_t i) {
            if (!edge(i % 256) && (!edge(i / 256) || i % 8)) return;
            initial.clear(); typed.clear();
            string s = BY[i % 256] + BY[i / 256];
            initial["a"] = s;
            table = {s};
            program("x := read_file(\"a\") os(x) ob(x == bytes(0)) ob(write_file(\"b\", x)) f := fopen(\"b\", \"a+\") fwrite(f, bytes(0), 1) fseek(f, 1) os(fread(f, 9)) fclose(f) printf(\"%s|%q|\", x, x) printf(x)");
        });
        mc::family("chunks", LEN.size() * CHUNK.size(), [](uint64_t i) {
            initial.clear(); typed.clear();
            size_t n = LEN[i / CHUNK.size()], c = CHUNK[i % CHUNK.size()];
            if (n / c > 2000 || (!mc::thorough && c > 4 && n > 8 && n < 250)) return;
            initial["a"] = fill(n, 1);
            program("f := fopen(\"a\", \"r\") g := fopen(\"b\", \"w\") n := 0 m := 0 while true { s := fread(f, " + I((long long)c) + ") if strlen(s) == 0 { break } if strlen(s) < " + I((long long)c) + " { m += 1 } fwrite(g, s) n += strlen(s) } oi(n) oi(m) fclose(f) fclose(g)");
        });
        mc::family("seek", 40 * 40, [](uint64_t i) {
            initial.clear(); typed.clear();
            static const int64_t P[] = {0, 1, 2, 5, 254, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8999, 9000, 9001, 65536, 100000, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 5000000000};
            uint64_t a = i % 40, b = i / 40;
            if (a >= 24 || b >= 24) return;
            initial["a"] = fill(9000, 0);
            program("f := fopen(\"a\", \"r+\") fseek(f, " + I(P[a]) + ") os(fread(f, 5)) fseek(f, " + I(P[b]) + ") os(fread(f, 300)) oi(fsize(f)) os(fread(f, 4)) fseek(f, " + I(std::min<int64_t>(P[a], 100000)) + ") fwrite(f, \"hello\") fseek(f, " + I(P[b]) + ") os(fread(f, 9)) fclose(f)");
        });
        mc::family("large", 12, [](uint64_t i) {       // a sparse file whose positions need more than 32 bits
            capture();
            initial.clear(); typed.clear();
            int64_t n = (int64_t[]){2147483646, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296}[i / 2];
            df::Impl X(opt.binder);
            W.clear(); prepare();
            made.insert("big");
            table = {"tail"};
            if (!X.compile("f := fopen(\"big\", \"w+\") fseek(f, " + I(n) + ") fwrite(f, \"tail\") a := fsize(f) fseek(f, " + I(n + 1) + ") s := fread(f, " + (i % 2 ? "3" : "2147483647") + ") fseek(f, " + I(n - 1) + ") t := fread(f, 2) fclose(f) oi(a) os(s) oi(stridx(t, 0)) oi(stridx(t, 1))")) mc::fail("%s", X.err.c_str());
            X.start();
            X.run(100000);
            string want; df::Impl Y(opt.binder);
            if (!Y.compile("oi(" + I(n + 4) + ") os(\"ail\") oi(0) oi('t')")) mc::fail("%s", Y.err.c_str());
            Y.start(); Y.run(1000);
            struct stat st;
            if (stat("big", &st) || st.st_size != n + 4) mc::fail("the file has %lld bytes instead of %lld", (long long)st.st_size, (long long)n + 4);
            truncate("big", 0);
            if (X.log.out != Y.log.out) mc::fail("a file written at %lld: %s instead of %s", (long long)n, X.log.out.c_str(), Y.log.out.c_str());
        });
        mc::family("pipes", LEN.size() * 4, [](uint64_t i) {      // what is read does not know its size beforehand
            initial.clear(); typed.clear();
            size_t n = LEN[i / 4];
            if (n > 60000) return;
            piped = fill(n, 1);
            usePipe = true;
            string c = i % 4 == 1 ? "7" : i % 4 == 2 ? "100000" : "2147483647";
            program(i % 4 == 0 ? "s := read_file(\"/dev/fd/60\") os(s) oi(strlen(s))" : "f := fopen(\"/dev/fd/60\", \"r\") n := 0 while true { s := fread(f, " + c + ") if strlen(s) == 0 { break } os(s) n += strlen(s) } oi(n) fclose(f)");
            usePipe = false;
            close(pipeFd);
        });
        mc::family("names", 20 * 4, [](uint64_t i) {
            static const std::vector<string> N = {"\"x\"", "\"\"", "\"no/x\"", "\"x y\"", "\"X\"", "\"x.txt\"", "bytes(0)", "strcat(\"x\", \"\")", "\"%i\"", "\"xx\""};
            static const std::vector<string> M = {"\"r\"", "\"w\"", "\"a\"", "\"rb\"", "\"wb\"", "\"r+b\"", "\"rb+\"", "\"\"", "\"q\"", "\"ab\""};
            initial.clear(); typed.clear();
            table = {"x"};
            if (i % 4 & 1) initial["x"] = "there", initial["%i"] = "odd";
            uint64_t n = i / 4 % 10;
            for (auto &m : M) program("f := fopen(" + N[n] + ", " + m + ") if f == null { oi(1) } else { oi(2) fwrite(f, \"w\") fclose(f) } s := read_file(" + N[n] + ") if s == null { oi(3) } else { os(s) }" + (i % 4 & 2 ? " ob(write_file(" + N[n] + ", \"again\"))" : ""));
            program("ob(write_file(" + N[n] + ", \"1\")) s := read_file(" + N[(n + i / 40) % 10] + ") ob(s == null) ob(write_file(" + N[n] + ", \"\")) t := read_file(" + N[n] + ") if t == null { oi(0) } else { os(t) }");
        });
        // names which are computed
        mc::family("computed-names", 22 * 13, [](uint64_t i) {
            static const std::vector<string> P = {"\"#\"", "strcat(\"\", \"#\")", "substr(\"z#\", 1, -1)", "substr(\"#zz\", 0, strlen(\"#\"))", "int_to_str(#)", "ntos(#)", "bytes(0)", "read_file(\"n\")", "fread(fopen(\"n\", \"r\"), 100)", "fread(fopen(\"n\", \"r\"), strlen(\"#\"))", "input()", "strcat(substr(\"z#\", 1, 2), substr(\"z#\", 2, -1))", "hs(\"#\")"};
            initial.clear(); typed.clear();
            string n = sub("1234567890123456789012345", "5", "5").substr(0, i % 22 + 1);
            const string &p = P[i / 22];
            if ((p.substr(0, 4) == "ntos" && n.size() > 6) || (p[0] == 'i' && p[2] == 't' && n.size() > 18)) return;      // other digits
            initial["n"] = n; typed = n + "\nrest"; table = {n};
            program("s := " + sub(p, "#", n) + " ob(write_file(s, \"written\")) os(read_file(s)) f := fopen(s, \"a\") fwrite(f, \"more\") fclose(f) os(read_file(\"" + n + "\")) f = fopen(\"" + n + "\", strcat(substr(\"xr\", 1, 2), \"\")) os(fread(f, 3)) fclose(f)");
        });
        mc::family("odd-files", 8, [](uint64_t i) {              // not what one expects behind a name, but nothing the program may die of
            capture();
            initial.clear(); typed.clear();
            W.clear(); prepare();
            static const char *N[] = {"/dev/null", "/proc/self/stat", ".", "..", "/dev/zero/x", "", "/proc/self/cmdline", "/proc/version"};
            df::Impl X(opt.binder);
            if (!X.compile(string("s := read_file(\"") + N[i] + "\") if s == null { oi(-7) } else { oi(strlen(s)) }")) mc::fail("%s", X.err.c_str());
            X.start(); X.run(1000);
            string want = "oi(I" + string(i == 0 ? "0" : "-7") + ")";
            if (i == 6 || i == 7) { FILE *f = fopen(N[i], "rb"); int n = 0; while (fgetc(f) != EOF) ++n; fclose(f); want = "oi(I" + I(n) + ")"; }
            if (i == 1) { if (X.log.out.size() < 8) mc::fail("reading %s gives %s", N[i], X.log.out.c_str()); return; }
            if (X.log.out.compare(0, want.size(), want)) mc::fail("reading %s gives %s instead of %s", N[i], X.log.out.c_str(), want.c_str());
        });
        mc::family("unwritable", LEN.size() * 4, [](uint64_t i) {     // a file which takes nothing: whoever writes it must learn of it
            if (access("/dev/full", W_OK)) { mc::noteSkip(); return; }
            capture();
            initial.clear(); typed.clear();
            W.clear(); prepare();
            size_t n = LEN[i % LEN.size()];
            int how = (int)(i / LEN.size());
            table = {fill(n, 1)};
            static const char *S[] = {"ob(write_file(\"/dev/full\", bytes(0)))", "ob(write_file(\"x\", bytes(0))) ob(write_file(\"/dev/full\", bytes(0)))", "ob(write_file(\"/dev/full\", strcat(bytes(0), \"\"))) ob(write_file(\"x\", bytes(0)))", "func f(s: str): bool { return write_file(\"/dev/full\", s) } ob(f(bytes(0))) ob(!f(bytes(0)))"};
            df::Impl X(opt.binder);
            if (!X.compile(S[how])) mc::fail("%s", X.err.c_str());
            X.start(); X.run(1000);
            string r = n ? "ob(B0);" : "ob(B1);", ok = "ob(B1);", want = how == 0 ? r : how == 1 ? ok + r : how == 2 ? r + ok : r + (n ? "ob(B1);" : "ob(B0);");
            if (X.log.out != want) mc::fail("writing %zu bytes to a full device gives %s instead of %s\n", n, X.log.out.c_str(), want.c_str());
        });
        // printing
        uint64_t na = ATOM.size();
        for (int k = 0; k <= (th ? 4 : 3); ++k)
            mc::family(("formats-" + I(k)).c_str(), mc::power(na, k) * (k < 3 ? 30 : th ? 24 : 4), [na, k](uint64_t i) {
                std::vector<string> a;
                for (int j = 0; j < k; ++j) { a.push_back(ATOM[i % na]); i /= na; }
                printing(a, i, i % 2);
            });
        mc::family("values", 28 * 28 * 2 * 3, [](uint64_t i) {
            uint64_t a = i % 28, b = i / 28 % 28, c = i / 784 % 2, d = i / 1568;
            initial.clear(); typed.clear();
            table = {string("h\0p", 3), fill(5000, 1), "plain", ""};
            program(POOL + "func nul(): any { return null } x := " + (a ? "cast(" + ANYS[a] + ", any)" : string("nul()")) + "\n" + (d == 0 ? "printf(\"%q\", x) printf(\"%q\\n%q\", x, " + ANYS[b] + ")" : d == 1 ? "l := array_any(x, " + ANYS[b] + ") printf(\"%q;\", l) q := new Q{new P{1, \"1\"}, cast(l, any)} printf(\"%q\", q)" : "func f(y: any) { printf(\"<%q>\", y) printf(\"%q%i\", y, 3) } f(x) f(" + (b && b != 17 ? "cast(" + ANYS[b] + ", any)" : "x") + ")") + (c ? " printf(\"%%%q%%\", x)" : ""));
        });
        mc::family("directive-values", 5 * 30 * 2, [](uint64_t i) {
            string c(1, "ifscq"[i % 5]);
            for (uint64_t k = 0; k < 30; ++k) printing({"%" + c, "%" + c}, i / 5 % 30 + k * 30, i / 150, "printf(\"|%" + c + "|\", " + (*valuesOf(c[0]))[k % valuesOf(c[0])->size()] + ")");
        });
        // percent signs between directives: what is left over for whom
        mc::family("percents", mc::power(5, th ? 7 : 5) * 2, [th](uint64_t i) {
            static const std::vector<string> A = {"%i", "%%", "%s", "x", "%q"};
            std::vector<string> a;
            bool heap = i % 2;
            i /= 2;
            for (int j = 0; j < (th ? 7 : 5); ++j) { a.push_back(A[i % 5]); i /= 5; }
            printing(a, 1, heap);
        });
        // many elements and fields, each printed like the first
        mc::family("elements", 120 * 4, [](uint64_t i) {
            initial.clear(); typed.clear();
            static const std::vector<string> E = {"\"s\"", "1", "\"\"", "null", "2.5", "true", "strcat(\"h\", \"t\")", "ai(1, 2)", "new P{1, \"p\"}", "array_any(\"in\", strcat(\"x\", \"y\"))"}, T = {"str", "int", "str", "any", "float", "bool", "str", "ai", "P", "array_any"};
            uint64_t n = i / 4 + 1;
            string a, f;
            for (uint64_t k = 0; k < n; ++k) { uint64_t e = i % 4 == 0 ? 0 : i % 4 == 1 ? 6 : (k * 7 + n) % 10; a += (k ? ", " : "") + E[e]; f += " f" + I((long long)k) + ": " + T[e]; }
            program("use array(\"any\") as array_any use array(\"int\") as ai struct P { a: int b: str } " + (i % 4 == 3 ? "struct W {" + f + " } printf(\"%q\", new W{" + a + "}) printf(\"%q\", array_any(new W{" + a + "}))" : "printf(\"%q\", array_any(" + a + ")) printf(\"%q\", array_any(array_any(" + a + "), 1))"));
        });
        // every pair of bytes in a literal
        mc::family("literals", 65536, [](uint64_t i) {
            if (i % 256 == 0 || i / 256 == 0 || (!edge(i % 256) && (!edge(i / 256) || i % 8))) return;
            initial.clear(); typed.clear();
            string l = "\"";
            for (char c : {(char)(i % 256), (char)(i / 256)}) l += c == '"' || c == '\\' ? string("\\") + c : c == '\n' ? string("\\n") : string(1, c);
            l += "\"";
            program("use array(\"str\") as sl struct P { s: str } printf(\"%q|%s|%q|%q\", " + l + ", " + l + ", sl(" + l + ", \"\"), new P{" + l + "}) printf(\"%q\", strcat(" + l + ", " + l + "))");
        });
        mc::family("format-bytes", 65536, [](uint64_t i) {        // the format itself holds any bytes
            if (!edge(i % 256) && (!edge(i / 256) || i % 4)) return;
            initial.clear(); typed.clear();
            table = {BY[i % 256] + BY[i / 256] + "%i" + BY[i % 256]};
            program("printf(bytes(0), 5) printf(\"%s\", bytes(0))");
        });
        mc::family("chars", 256 * 3, [](uint64_t i) { initial.clear(); typed.clear(); program("printf(\"" + string(i / 256, 'k') + "%c%c.%c\", " + I((long long)(i % 256)) + ", " + I((long long)(255 - i % 256)) + ", 65)"); });
        mc::family("format-length", LEN.size() * 2, [](uint64_t i) {
            initial.clear(); typed.clear();
            size_t n = LEN[i / 2];
            if (n > 70000) return;
            table = {i % 2 ? fill(n, 4) : rep("%%", (int)n / 2)};
            program("printf(bytes(0)) printf(\"%s.\", bytes(0)) l := array_any(bytes(0), 1) printf(\"%q\", l)");
        });
        mc::family("argument-count", 240 * 3, [](uint64_t i) {
            initial.clear(); typed.clear();
            string f, a;
            for (uint64_t k = 0; k < i / 3; ++k) { static const char *D[] = {"%i ", "%s,", "%q;", "%f/", "%c"}; int d = i % 3 == 0 ? 0 : (int)(k * (i % 3) % 5); f += D[d]; a += ", " + (d == 0 ? I((long long)k) : d == 1 ? "\"s" + I((long long)k) + "\"" : d == 2 ? "ai(" + I((long long)k) + ")" : d == 3 ? I((long long)k) + ".5" : I((long long)(65 + k % 26))); }
            program("use array(\"int\") as ai printf(\"" + f + "\"" + a + ")");
            program("use array(\"int\") as ai printf(\"" + f + "\"" + a + ", 1, 2)");
        });
        mc::family("nesting", 50 * 3, [](uint64_t i) {
            initial.clear(); typed.clear();
            string w = i % 3 == 0 ? "x = array_any(x)" : i % 3 == 1 ? "x = new Q{x, 1}" : "x = array_any(new Q{x, n}, n)";
            program("struct Q { a: any n: int } " + string(i % 3 == 0 ? "x := array_any() func step(v: array_any): array_any { return array_any(v) }" : "x := cast(null, any)") + " n := 0 while n < " + I((long long)(i / 3)) + " { n += 1 " + (i % 3 == 0 ? "x = step(x)" : i % 3 == 1 ? "x = cast(new Q{x, n}, any)" : "x = cast(array_any(new Q{x, n}, n), any)") + " } printf(\"%q\", x)");
        });
        // typing
        int k = th ? 6 : 5;
        mc::family("lines", mc::power(th ? 6 : 5, k) * 2, [k](uint64_t i) {
            static const char A[] = {'a', '\n', '\0', '\xff', '\r', '%'};
            initial.clear();
            typed.clear();
            bool cut = i % 2;
            i /= 2;
            for (int j = 0; j < k; ++j) { typed += A[i % (mc::thorough ? 6 : 5)]; i /= mc::thorough ? 6 : 5; }
            if (cut) typed.resize(typed.find_last_not_of('a') + 1);
            table = {string("p\0%s", 4)};
            program("os(input()) os(input(\"? %i\")) os(input(bytes(0))) os(input()) s := input() oi(strlen(s)) os(strcat(s, \"x\"))");
        });
        mc::family("line-length", LEN.size() * 3, [](uint64_t i) {
            initial.clear();
            size_t n = LEN[i / 3];
            if (n > 70000) return;
            typed = fill(n, i % 3 == 0 ? 0 : 2) + (i % 3 == 2 ? "" : "\nsecond\n");
            table = {fill(n, 0)};
            program("a := input() b := input(bytes(0)) oi(strlen(a)) os(a) os(b) os(strcat(a, b)) os(input())");
        });
        mc::family("typed-and-printed", 6 * 6 * 6, [](uint64_t i) {
            static const std::vector<string> O = {"printf(\"a%ib\", 1)", "s = input(\"prompt\")", "s = input()", "printf(\"%s\", s)", "printf(\"%q\\n\", array_any(s, input()))", "ob(write_file(\"x\", s))"};
            initial.clear();
            typed = "one\ntwo\n\nfour";
            program("s := \"start\" " + O[i % 6] + " " + O[i / 6 % 6] + " " + O[i / 36] + " printf(s)");
        });
    });
    std::error_code ec;
    if (capturing || chdir("/") == 0) std::filesystem::remove_all(dirOf, ec);
    return rc;
}
