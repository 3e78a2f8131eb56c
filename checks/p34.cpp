// P34: compiling a file is compiling its text.
#include "stdref.hpp"
#include "corpus.hpp"
#include "gen.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>
using namespace gen;
static df::Opt OPT;
static string dirOf;
static void enter() {
    if (!dirOf.empty()) return;
    char d[] = "f34-XXXXXX";                       // run.py's scratch directory is the working directory
    if (!mkdtemp(d)) mc::fail("no scratch directory");
    char full[4096];
    if (!realpath(d, full)) mc::fail("no scratch directory");
    dirOf = full;
    if (chdir(full)) mc::fail("no scratch directory");
    atexit([] { (void)!system(("find '" + dirOf + "' -depth -delete").c_str()); });
}
static void put(const string &name, const string &text) {
    int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) mc::fail("cannot create %s", name.c_str());
    for (size_t n = 0; n < text.size();) { ssize_t k = write(fd, text.data() + n, text.size() - n); if (k <= 0) mc::fail("write"); n += (size_t)k; }
    close(fd);
}
static int fds() { int n = 0; for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
// The memory of a state
struct Mem { std::map<void *, size_t> live; bool bad = false; };
static void *alloc(void *p, size_t n, void *u) {
    Mem *m = (Mem *)u;
    if (p && !m->live.erase(p)) { m->bad = true; return nullptr; }
    if (!n) { free(p); return nullptr; }
    void *q = realloc(p, n);
    m->live[q] = n;
    return q;
}
enum Kind { PLAIN, LINK, PIPE, NKIND };
static const char *KIND[] = {"a file", "a symbolic link", "a pipe"};
struct Source {                                    // makes the text available under a name
    string name; int fd = -1;
    Source(Kind k, const string &text, const string &n) : name(n) {
        if (k == PIPE) {
            int p[2];
            if (pipe(p)) mc::fail("pipe");
            if (text.size() > 4096) fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
            for (size_t n = 0; n < text.size();) { ssize_t k = write(p[1], text.data() + n, text.size() - n); if (k <= 0) mc::fail("pipe"); n += (size_t)k; }
            close(p[1]);
            fd = p[0];
            name = "/proc/self/fd/" + I(fd);
        } else if (k == LINK) {
            put("target", text);
            unlink(n.c_str());
            if (symlink("target", n.c_str())) mc::fail("symlink");
        } else { unlink(n.c_str()); put(n, text); }
    }
    ~Source() { if (fd >= 0) close(fd); else unlink(name.c_str()); }
};
static string runIt(df::Impl &X) {
    string o;
    X.log.out.clear();
    X.log.nextNat = 1;
    X.init();
    Tiny_StartThread(&X.t);
    long n = 0;
    const char *f; int l;
    while (!Tiny_IsThreadDone(&X.t)) {
        if (++n > 200000) { o += "(does not end)"; break; }
        Tiny_GetExecutingFileLine(&X.t, &f, &l);
        o += string(f ? f : "-") + ":" + I(l) + ";";
        if (!Tiny_ExecuteCycle(&X.t)) break;
    }
    mc::noteTransitions(n);
    Tiny_DestroyThread(&X.t);
    X.threadUp = false;
    return X.log.out + "|" + o;
}
static bool compileFile(df::Impl &X, const char *name) {
    int before = fds();
    X.res = Tiny_CompileFile(X.s, name);
    X.err = X.res.type == TINY_COMPILE_SUCCESS ? "" : X.res.error.msg;
    int after = fds();
    if (after != before) mc::fail("compiling `%s` leaves %d more files open", df::clip(name, 100).c_str(), after - before);
    return X.res.type == TINY_COMPILE_SUCCESS;
}
static void both(const string &text, Kind k, const string &name = "f.tiny") {
    enter();
    Mem m;
    {
        Source src(k, text, name);
        df::Impl A(OPT.binder), B(Tiny_Context{alloc, &m}, OPT.binder);
        bool a = A.compile(text, src.name.c_str());
        bool b = compileFile(B, src.name.c_str());
        if (a != b) mc::fail("the text is %s, %s with it is %s\n%s\n%s", a ? "accepted" : "rejected", KIND[k], b ? "accepted" : "rejected", (A.err + B.err).c_str(), df::clip(text).c_str());
        if (A.err != B.err) mc::fail("the message for the text is\n%s\nthe one for %s with it is\n%s", A.err.c_str(), KIND[k], B.err.c_str());
        mc::noteState(mc::hash(A.err.data(), A.err.size()));
        bool callsMissing = text.find("get_function_index (") != string::npos && text.find("func r2") == string::npos;   // stops the process
        if (a && !callsMissing) {
            string x = runIt(A), y = runIt(B);
            if (x != y) mc::fail("the text and %s with it behave differently: %s\n%s", KIND[k], df::differ(x, y).c_str(), df::clip(text).c_str());
            mc::noteState(mc::hash(x.data(), x.size()));
        }
        mc::noteTrace();
    }
    if (m.bad || !m.live.empty()) mc::fail("%zu blocks of the state are left after compiling %s", m.live.size(), KIND[k]);
}
// ---- every prefix of every program
static std::vector<std::vector<string>> T;
static uint64_t nPrefix = 0;
static const char *END[] = {"", "\n", "\r\n", " // end", "\n\n\f"};
static string prefixText(uint64_t i) {
    int e = (int)(i % 5); i /= 5;
    size_t u = 0;
    while (i > T[u].size()) { i -= T[u].size() + 1; ++u; }
    string s;
    for (size_t j = 0; j < i; ++j) s += T[u][j] + (j % 7 == 6 ? "\n" : " ");
    return s + END[e];
}
// ---- every short text
static const char BYTES[] = "a1\"\\\n/{:=\x80\xff '\x1a";
static const int NBYTES = sizeof BYTES - 1;
// ---- sizes
static std::vector<int> sizesOf() {
    std::vector<int> n;
    for (int i = 0; i < 260; ++i) n.push_back(i);
    for (int p = 512; p <= (mc::thorough ? 1 << 19 : 1 << 16); p *= 2) for (int d = -3; d <= 3; ++d) n.push_back(p + d);
    return n;
}
static string sizedText(int n, int how) {           // a program of n bytes
    string tail = "out(1) x := 2 out(x)";
    if (how == 0) return rep(" ", n) + tail;
    if (how == 1) return tail + rep("\n", n);
    if (how == 2) return tail + " // " + rep("c", n);
    if (how == 3) return tail + " s := \"" + rep("s", n) + "\" out(strlen(s))";
    if (how == 4) { string s; while ((int)s.size() < n) s += "out(" + I((long)s.size() % 97) + ")\n"; return (int)s.size() > n ? s.substr(0, n) : s; }
    return rep("\n", n) + "out(";
}
// ---- histories
static const char *OPS[] = {"file x := 1 out(x)", "file func f(n: int): int {\n return n + 1\n}\nout(f(1))", "file x = x + 1 out(x)", "file out(f(41))", "file y := 1\nout(nosuch)", "file func g() { } z :=", "missing", "directory", "unterminated \"s", "text v := 5 out(v) x2 := 1",
    "pipe x = 10 out(x)", "empty", "struct S { a: int } s := new S{3} out(s.a)"};
static const int NOPS = sizeof OPS / sizeof *OPS;
static string historyText(uint64_t i) { string o; for (int k : mc::seqAt(NOPS, i)) o += string("[") + OPS[k] + "] "; return o; }
static void history(uint64_t i) {
    enter();
    Mem m;
    {
        df::Impl A(OPT.binder), B(Tiny_Context{alloc, &m}, OPT.binder);
        bool any = false;
        int n = 0;
        for (int k : mc::seqAt(NOPS, i)) {
            string op = OPS[k], name = "h" + I(n++) + ".tiny";
            if (op == "missing" || op == "directory") {
                string what = op == "missing" ? "none.tiny" : "dir.tiny";
                if (op == "directory") mkdir("dir.tiny", 0700);
                if (compileFile(B, what.c_str())) mc::fail("a %s is accepted\n%s", op.c_str(), historyText(i).c_str());
                if (B.err.find(what) == string::npos) mc::fail("the message for a %s does not name it: %s", op.c_str(), B.err.c_str());
                continue;
            }
            string text = op == "empty" ? "" : op.substr(0, 5) == "file " || op.substr(0, 5) == "text " || op.substr(0, 5) == "pipe " ? op.substr(5) : op;
            bool a, b;
            if (op.substr(0, 5) == "text ") { a = A.compile(text, name.c_str()); b = B.compile(text, name.c_str()); }
            else {
                Source src(op.substr(0, 5) == "pipe " ? PIPE : PLAIN, text, name);
                a = A.compile(text, src.name.c_str());
                b = compileFile(B, src.name.c_str());
            }
            if (a != b || A.err != B.err) mc::fail("step %d: %s or %s\n%s\n%s\n%s", n, a ? "accepted" : "rejected", b ? "accepted" : "rejected", A.err.c_str(), B.err.c_str(), historyText(i).c_str());
            any = any || a;
        }
        if (any) {
            string x = runIt(A), y = runIt(B);
            if (x != y) mc::fail("different behaviour %s\n%s", df::differ(x, y).c_str(), historyText(i).c_str());
            mc::noteState(mc::hash(x.data(), x.size()));
        }
        mc::noteTrace();
    }
    if (m.bad || !m.live.empty()) mc::fail("%zu blocks of the state are left\n%s", m.live.size(), historyText(i).c_str());
}
// ---- names
static string nameOf(uint64_t i) {
    int kind = (int)(i % 4), n = (int)(i / 4);
    if (kind == 0) return string(n % 250 + 1, 'n');
    if (kind == 1) { string s; for (int k = 0; k < n; ++k) s += "./"; return s + "f"; }
    if (kind == 2) { static const char *S[] = {"%s%n%d", "a b", "a\nb", "\xc3\xa4", "-", "(1)", "\"q\"", "~", "a\\b", "'", "%", "%%", "%99999d"}; return S[n % 13] + I(n / 13); }
    return "f" + rep(".", n % 240) + "t";
}
static void names(uint64_t i) {
    string name = nameOf(i);
    int what = (int)(i % 3);
    if (what < 2) both(what ? "out(1)\nout(" : "out(1)\nout(2)", PLAIN, name);
    else {
        enter();
        df::Impl B(OPT.binder);
        if (compileFile(B, name.c_str())) mc::fail("no file, but accepted");
        if (B.err.find(name.substr(0, 200)) == string::npos) mc::fail("the message does not name the missing file `%s`: %s", name.c_str(), B.err.c_str());
        if (!B.compile("out(1)", "t") || runIt(B).substr(0, 2) == "|") mc::fail("the state is not usable after a missing file");
        mc::noteTrace();
    }
}
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        OPT = df::stdOpt();
        for (auto &u : corpus::units()) T.push_back(corpus::tokens(u));
        nPrefix = 0;
        for (auto &t : T) nPrefix += t.size() + 1;
        mc::family("prefixes", nPrefix * 5 * NKIND, [](uint64_t i) { both(prefixText(i / NKIND), (Kind)(i % NKIND)); }, [](uint64_t i) { return string(KIND[i % NKIND]) + ": " + df::clip(prefixText(i / NKIND)); });
        static auto bytesAt = [](uint64_t i) { string s; for (int k : mc::seqAt(NBYTES, i)) s += BYTES[k]; return s; };
        mc::family("bytes", mc::seqCount(NBYTES, mc::thorough ? 5 : 3), [](uint64_t i) { both(bytesAt(i), i % 5 ? PLAIN : PIPE); }, [](uint64_t i) { return "text `" + bytesAt(i) + "`"; });
        // what other programs take for a mark at the start or at the end of a file
        static const char *MARK[] = {"", "\xef\xbb\xbf", "\xef\xbb", "\xff\xfe", "\xfe\xff", "#!/usr/bin/tiny\n", "#", "//\xef\xbb\xbf\n", "\x1a", "\x04", "\r", "\r\n", "\n\r", "\f", "\v", "\x0c\n", "// -*- tiny -*-\n", "\x7f", "\x01", "\xc2\xa0", "\xe2\x80\xa8", "\\", "\\\n", "\"a\r\nb\"", "'\r'", "s := \"\r\n\" out(s)\r\n"};
        static const int NMARK = 26;
        static auto markAt = [](uint64_t i) { mc::Digits d(i); static const char *MID[] = {"out(1)", "x := 1\r\nout(x)\r\n", "out(\"a\rb\")\rout(2)", ""}; int a = (int)d(NMARK), b = (int)d(NMARK), m = (int)d(4); return string(MARK[a]) + MID[m] + MARK[b]; };
        mc::family("marks", NMARK * NMARK * 4 * NKIND, [](uint64_t i) { both(markAt(i / NKIND), (Kind)(i % NKIND)); }, [](uint64_t i) { return string(KIND[i % NKIND]) + ": " + markAt(i / NKIND); });
        static auto S = sizesOf();
        mc::family("sizes", S.size() * 6 * 2, [](uint64_t i) { mc::Digits d(i); int n = S[d(S.size())], how = (int)d(6); both(sizedText(n, how), d(2) ? PIPE : PLAIN); },
                   [](uint64_t i) { mc::Digits d(i); int n = S[d(S.size())], how = (int)d(6); return "size " + I(n) + " kind " + I(how) + (d(2) ? " pipe" : ""); });
        mc::family("histories", mc::seqCount(NOPS, mc::thorough ? 5 : 3), history, historyText);
        mc::family("names", 4 * 1000, names, nameOf);
    });
}
