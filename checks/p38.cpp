// P38: offsets into a text as lines and columns.  The text is a heap block of exactly its size, so that the
// sanitizer guards its end.
#include "diff.hpp"
#include "gen.hpp"
extern "C" {
#include "pos.h"
}
using namespace gen;
struct Text {
    char *p;
    size_t n;
    std::vector<uint32_t> line, col;           // expected, counted one character at a time
    Text(const string &s) : p((char *)malloc(s.size() + 1)), n(s.size()) {
        memcpy(p, s.c_str(), n + 1);
        uint32_t l = 0, c = 0;
        for (char x : s) {
            line.push_back(l);
            col.push_back(c);
            if (x == '\n') { ++l; c = 0; } else ++c;
        }
    }
    ~Text() { free(p); }
    void at(size_t i) const {
        Tiny_Pos pos = {(uint32_t)i};
        Tiny_FriendlyPos f = Tiny_PosToFriendlyPos(pos, p, (uint32_t)n);
        if (f.lineIndex != line[i] || f.charIndex != col[i]) mc::fail("offset %zu of the text of %zu bytes %s is line %u column %u instead of line %u column %u", i, n, n < 40 ? string(p, n).c_str() : "", f.lineIndex, f.charIndex, line[i], col[i]);
        mc::noteTransitions(1);
    }
    void all() const {
        string before(p, n);
        for (size_t i = 0; i < n; ++i) at(i);
        for (size_t i = n; i-- > 0;) at(i);    // whatever was asked before
        if (before != string(p, n)) mc::fail("the text has changed");
        mc::noteState(mc::hash(p, n));
        mc::noteRun();
        mc::noteTrace();
    }
};
int main(int argc, char **argv) {
    return mc::drive(argc, argv, [] {
        bool th = mc::thorough;
        static const char AB[] = {'a', '\n', '\r', ' ', '\t', (char)0xe9};
        static int len = th ? 8 : 6;
        mc::family("texts", mc::seqCount(6, len), [](uint64_t i) {
            string s;
            for (int k : mc::seqAt(6, i)) s += AB[k];
            Text(s).all();
        });
        static int lines = th ? 20 : 15;
        mc::family("line ends", (uint64_t)2 << lines, [](uint64_t i) {   // one bit per character: a line end or not
            string s;
            for (int k = 0; k <= lines; ++k) { if (i >> k == 1) break; s += i >> k & 1 ? '\n' : 'x'; }
            if (i) Text(s).all();
        });
        mc::family("bytes", 255 * 3, [](uint64_t i) {
            mc::Digits d(i);
            char c = (char)(d(255) + 1);
            int where = d(3);
            for (int n = 1; n < 40; ++n) Text(string(where == 0 ? 0 : n, 'y') + c + string(where == 2 ? 0 : n, 'z') + "\n" + c + string(n, c) + "\n\n" + c).all();
        });
        // Long lines and many lines: every offset near a line end and the ends of the text
        static const std::vector<int> W = {0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131071, 131072, 200000};
        mc::family("long lines", W.size() * W.size() * 3, [](uint64_t i) {
            mc::Digits d(i);
            int a = W[d(W.size())], b = W[d(W.size())], tail = d(3);
            string s = string(a, 'a') + "\n" + string(b, 'b') + (tail ? "\n" : "") + (tail == 2 ? "c" : "");
            Text t(s);
            for (size_t k = 0; k < t.n; ++k) {
                size_t e1 = a, e2 = (size_t)a + 1 + b;
                auto near = [&](size_t x) { return k + 3 > x && k < x + 3; };
                if (near(0) || near(e1) || near(e2) || near(t.n) || near(255) || near(256) || near(32768) || near(65535) || near(65536)) t.at(k);
            }
            mc::noteState(mc::hash(s.data(), s.size()));
            mc::noteRun();
        });
        static const std::vector<int> C = {1, 2, 127, 128, 255, 256, 257, 1000, 32767, 32768, 40000, 65535, 65536, 66000};
        mc::family("many lines", C.size() * 4, [](uint64_t i) {
            mc::Digits d(i);
            int n = C[d(C.size())], w = d(4);
            Text t(rep(string(w, 'x') + "\n", n) + "end");
            for (size_t k = 0; k < t.n; ++k) if (k < 40 || k + 40 > t.n) t.at(k);
            for (int l : C) if (l < n) for (int o = -2; o <= w + 2; ++o) { long k = (long)l * (w + 1) + o; if (k >= 0 && k < (long)t.n) t.at((size_t)k); }
            mc::noteState(mc::hash(t.p, t.n));
            mc::noteRun();
        });
    });
}
