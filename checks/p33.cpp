// P33: the server example's request parser, for every way the bytes of a request are cut into chunks.
#include <vector>
#include <string>
#include "common.hpp"
#include "gen.hpp"
extern "C" {
#include "requestparser.h"
}
using namespace gen;
typedef std::vector<std::pair<string, string>> Headers;
struct Result { bool error = false, done = false; string method, target, version, body; Headers h; size_t used = 0; };
static int count(const void *a) { return a ? ((const int *)a)[-1] : 0; }
static string field(const char *p, size_t n) { return string(p, strnlen(p, n)); }
// Feeds the parser the way the server's connection loop does, each chunk in a block of its own.
static Result parse(const string &bytes, const std::vector<size_t> &cuts) {
    Result R;
    Request *r = (Request *)malloc(sizeof(Request));
    RequestParser *p = (RequestParser *)malloc(sizeof(RequestParser));
    memset(r, 0, sizeof *r);
    memset(p, 0, sizeof *p);
    InitRequest(r);
    InitRequestParser(p);
    size_t at = 0;
    for (size_t k = 0; k <= cuts.size() && !R.error && !R.done; ++k) {
        size_t end = k < cuts.size() ? cuts[k] : bytes.size(), len = end - at;
        char *buf = (char *)malloc(len + (at == 0));          // the first line is read as text
        memcpy(buf, bytes.data() + at, len);
        if (at == 0) buf[len] = 0;
        size_t i = 0;
        int idle = 0;
        while (i < len) {
            int m = ParseRequest(p, r, buf + i, (int)(len - i));
            mc::noteTransitions(1);
            if (m < 0) { R.error = true; break; }
            if ((size_t)m > len - i) mc::fail("%d bytes of %zu were read", m, len - i);
            if (m == 0 && p->state != REQUEST_STATE_DONE && ++idle > 3) mc::fail("the parser does not go on");
            i += (size_t)m;
            R.used = at + i;
            uint64_t key[4] = {(uint64_t)p->state, (uint64_t)p->nameLen, (uint64_t)p->bodyBytesLeft, mc::hash(bytes) + at + i};
            mc::noteState(mc::hash(key, sizeof key));
            if (p->state == REQUEST_STATE_DONE) { R.done = true; break; }
        }
        free(buf);
        at = end;
    }
    R.method = field(r->method, sizeof r->method); R.target = field(r->target, sizeof r->target); R.version = field(r->version, sizeof r->version);
    for (int k = 0; k < count(r->headers); ++k) R.h.push_back({field(r->headers[k].name, sizeof r->headers[k].name), r->headers[k].value ? string(r->headers[k].value) : ""});
    if (count(r->body)) R.body = string(r->body, (size_t)count(r->body) - (R.done ? 1 : 0));
    for (auto &h : R.h) {
        const char *v = GetHeaderValue(r, h.first.c_str());
        string first;
        for (auto &g : R.h) if (g.first == h.first) { first = g.second; break; }
        if (!v || first != v) mc::fail("looking up the header %s gives %s instead of %s", h.first.c_str(), v ? v : "nothing", first.c_str());
    }
    if (GetHeaderValue(r, "No-Such-Header")) mc::fail("a header was found which is not there");
    DestroyRequest(r);
    DestroyRequestParser(p);
    free(r); free(p);
    mc::noteTrace();
    return R;
}
static string show(const string &s) { string o; for (unsigned char c : s.substr(0, 400)) { char b[8]; if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; } return o; }
static string show(const Result &r) {
    string s = string(r.error ? "error, " : r.done ? "complete, " : "incomplete, ") + r.method + " " + r.target + " " + r.version;
    for (auto &h : r.h) s += ", " + h.first + "=" + h.second;
    return show(s + ", body of " + I((long long)r.body.size()) + ": " + r.body);
}
static bool same(const Result &a, const Result &b) { return a.error == b.error && a.done == b.done && a.method == b.method && a.target == b.target && a.version == b.version && a.h == b.h && a.body == b.body && (a.error || a.used == b.used); }
static void against(const Result &want, const string &bytes, const std::vector<size_t> &cuts, const char *what) {
    Result g = parse(bytes, cuts);
    if (same(g, want)) return;
    string c;
    for (size_t k : cuts) c += " " + I((long long)k);
    mc::fail("%s: cut at%s the result is\n%s\nexpected\n%s\nof %s", what, c.c_str(), show(g).c_str(), show(want).c_str(), show(bytes).c_str());
}
// ---------------------------------------------------------------- valid requests
struct Shape { string text; size_t line; Result want; };
static Shape shape(const string &method, const string &target, const string &version, const string &eol, const Headers &h, const string &body, bool lenFirst) {
    Shape s;
    s.text = method + " " + target + " " + version + eol;
    s.line = s.text.size();
    s.want.done = true; s.want.method = method; s.want.target = target; s.want.version = version; s.want.body = body; s.want.h = h;
    if (!body.empty()) s.want.h.insert(lenFirst ? s.want.h.begin() : s.want.h.end(), {"Content-Length", I((long long)body.size())});
    size_t k = 0;
    for (auto &x : s.want.h) s.text += x.first + (k++ % 2 && eol.size() > 1 ? ":" : ": ") + x.second + eol;
    s.text += eol + body;
    s.want.used = s.text.size();
    return s;
}
static std::vector<Shape> SH;
static void shapes() {
    static const std::vector<Headers> HS = {{}, {{"Host", "a"}}, {{"A", ""}}, {{"Host", "x:80"}, {"Accept", "text/html, */*"}}, {{"X", "1"}, {"X", "2"}}, {{"Content-Type", "a=b; c"}, {"Content-Lengt", "7"}, {"E", "v w"}}};
    static const std::vector<string> BS = {"", "b", "ab\r\n", string("\0\n:", 3), "GET / HTTP/1.1\r\n\r\n", "0123456789abcdef"};
    for (auto &h : HS) for (auto &b : BS) for (int v = 0; v < 4; ++v)
        if (v < 2 || !b.empty() || h.size() < 2) SH.push_back(shape(v % 2 ? "POST" : "GET", v % 2 ? "/a?b=c&d" : "/", v % 2 ? "HTTP/1.0" : "HTTP/1.1", v == 1 ? "\n" : "\r\n", h, b, v >= 2));
}
static const char *HINT = "the request is taken as complete when a chunk ends right after the first line";
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        shapes();
        bool th = mc::thorough;
        size_t n = SH.size();
        auto say = [](uint64_t i) { return show(SH[i % SH.size()].text); };
        mc::family("whole", n, [](uint64_t i) { against(SH[i].want, SH[i].text, {}, "at once"); }, say);
        mc::family("after-first-line", n, [](uint64_t i) {
            auto &s = SH[i];
            Result g = parse(s.text, {s.line}), want = s.want;
            want.h.clear(); want.body.clear(); want.used = s.line;
            if (!same(g, s.want) && same(g, want)) mc::fail("%s of %s", HINT, show(s.text).c_str());
            against(s.want, s.text, {s.line}, "cut after the first line");
        }, say);
        // every cut beyond the first line and the first byte which follows it
        mc::family("one-cut", n * 200, [=](uint64_t i) { auto &s = SH[i % n]; size_t c = s.line + 1 + i / n; if (c < s.text.size()) against(s.want, s.text, {c}, "one cut"); }, say);
        mc::family("two-cuts", n * 120 * 120, [=](uint64_t i) { auto &s = SH[i % n]; size_t a = s.line + 1 + i / n % 120, b = a + 1 + i / n / 120; if (b < s.text.size() && (mc::thorough || i % n % 2 == 0)) against(s.want, s.text, {a, b}, "two cuts"); }, say);
        if (th) mc::family("three-cuts", n * 60 * 60 * 60, [=](uint64_t i) { auto &s = SH[i % n]; size_t a = s.line + 1 + i / n % 60, b = a + 1 + i / n / 60 % 60, c = b + 1 + i / n / 3600; if (c < s.text.size()) against(s.want, s.text, {a, b, c}, "three cuts"); }, say);
        mc::family("equal-chunks", n * 100, [=](uint64_t i) { auto &s = SH[i % n]; std::vector<size_t> c; for (size_t k = s.line + 1; k < s.text.size(); k += 1 + i / n) c.push_back(k); against(s.want, s.text, c, "equal chunks"); }, say);
        // all cuts of short requests
        mc::family("all-cuts", 12 << 14, [=](uint64_t i) {
            static const std::vector<Shape> Q = {shape("G", "/", "H", "\n", {{"A", "b"}}, "", false), shape("G", "/", "H", "\r\n", {{"A", ""}}, "", false), shape("G", "/", "H", "\n", {{"A", "b"}, {"C", "d"}}, "", false), shape("G", "/", "H", "\r\n", {{"A", "1"}, {"B", "2"}}, "", false), shape("G", "/", "H", "\r\n", {}, "", false), shape("G", "/", "H", "\n", {{"Ab", "cd e"}}, "", false)};
            auto &s = Q[i % 6];
            uint64_t m = i / 12;
            std::vector<size_t> c;
            if (i / 6 % 2) { if (m >> 13) return; c = {}; }
            for (size_t k = 0; k < 14; ++k) if (m >> k & 1) { if (s.line + 1 + k >= s.text.size()) return; c.push_back(s.line + 1 + k); }
            against(s.want, s.text, c, "some cuts");
        });
        // anything after a first line: no bad access, and cutting does not matter
        int k = th ? 7 : 6;
        mc::family("malformed", mc::power(7, k), [k](uint64_t i) {
            static const char A[] = {'a', ':', ' ', '\r', '\n', '3', '\xff'};
            string s = "GET / HTTP/1.1\r\n";
            size_t line = s.size();
            for (int j = 0; j < k; ++j) { s += A[i % 7]; i /= 7; }
            Result w = parse(s, {});
            for (size_t c = line + 1; c < s.size(); ++c) against(w, s, {c}, "malformed");
            std::vector<size_t> each;
            for (size_t c = line + 1; c < s.size(); ++c) each.push_back(c);
            against(w, s, each, "malformed, byte by byte");
        });
        mc::family("first-lines", mc::power(6, th ? 8 : 7), [=](uint64_t i) {
            static const char A[] = {'a', ' ', '\r', '\n', '\t', '/'};
            string s;
            for (int j = 0; j < (mc::thorough ? 8 : 7); ++j) { s += A[i % 6]; i /= 6; }
            parse(s, {});
            parse(s + "X: 1\n\n", {});
        });
        mc::family("lengths", 24 * 700, [](uint64_t i) {
            static const char *N[] = {"Content-Length: -1", "Content-Length: 0", "Content-Length: 5x", "Content-Length:", "Content-Length: 99999999999999999999", "Content-Length: 3\nContent-Length: 1", "content-length: 2", "Content-Length : 2"};
            uint64_t n = i / 24, kind = i % 24;
            string s = "GET / HTTP/1.1\n";
            size_t line = s.size();
            if (kind < 8) s += string(N[kind]) + "\n\n" + string(n % 50, 'b');
            else if (kind == 8) s += string(n, 'n') + ": v\n\n";
            else if (kind == 9) s += "V: " + string(n * 13, 'v') + "\n\n";
            else if (kind == 10) { for (uint64_t k = 0; k < n % 200; ++k) s += "H" + I((long long)k) + ": " + string(k % 9, 'x') + "\n"; s += "\n"; }
            else if (kind == 11) s += "Content-Length: " + I((long long)n * 11) + "\n\n" + string(n * 11, 'q');
            else if (kind == 12) { s = string(n, 'M') + " / V\nA: b\n\n"; line = n + 5; }
            else if (kind == 13) { s = "M " + string(n, 't') + " V\nA: b\n\n"; line = n + 5; }
            else if (kind == 14) { s = "M / " + string(n, 'v') + "\nA: b\n\n"; line = n + 5; }
            else return;
            Result w = parse(s, {});
            if (kind == 8) { if (n > 255 ? !w.error : n > 0 && (w.error || w.h.size() != 1 || w.h[0].first != string(n, 'n'))) mc::fail("a header name of %llu characters: %s", (unsigned long long)n, show(w).c_str()); }
            if (kind == 9 && (w.error || w.h.size() != 1 || w.h[0].second != string(n * 13, 'v'))) mc::fail("a header value of %llu characters is lost", (unsigned long long)n * 13);
            if (kind == 10 && (w.error || w.h.size() != n % 200)) mc::fail("%zu of %llu headers", w.h.size(), (unsigned long long)n % 200);
            if (kind == 11 && (w.error || !w.done || w.body != string(n * 11, 'q'))) mc::fail("a body of %llu bytes: %s", (unsigned long long)n * 11, show(w).c_str());
            if (kind == 12 && n && n < 64 && (w.error || w.method != string(n, 'M'))) mc::fail("a method of %llu characters: %s", (unsigned long long)n, show(w).c_str());
            if (kind == 13 && n && n < 512 && (w.error || w.target != string(n, 't') || w.method != "M")) mc::fail("a target of %llu characters: %s", (unsigned long long)n, show(w).c_str());
            if (kind == 14 && n && n < 64 && (w.error || w.version != string(n, 'v') || w.target != "/")) mc::fail("a version of %llu characters: %s", (unsigned long long)n, show(w).c_str());
            if ((w.error || !n) && kind >= 12) return;
            for (size_t c = line + 1; c < s.size(); c += 1 + s.size() / 40) against(w, s, {c}, "long");
        });
        // requests one after the other on a connection
        mc::family("cut-short", n, [](uint64_t i) { auto &s = SH[i]; for (size_t c = s.line + 1; c < s.text.size(); ++c) { Result g = parse(s.text.substr(0, c), {}); if (g.error) mc::fail("the beginning of a request is an error: %s", show(s.text.substr(0, c)).c_str()); if (g.done) mc::fail("the beginning of a request is complete: %s", show(s.text.substr(0, c)).c_str()); } }, say);
    });
}
