// Top-level source units which together use every construct of the language and of the standard
// bindings.  Units with the same letter prefix do not depend on others unless `needs` says so.
#pragma once
#include <string>
#include <vector>
namespace corpus {
using std::string;
// Self-contained, pairwise compatible units (distinct names), bindings of df::stdOpt().
inline const std::vector<string> &units() {
    static const std::vector<string> u = {
        "out(1, 2.5, \"three\", true, null, 'c', 0x1F)",
        "a1 := 1 + 2 * 3 - -4 a1 += 5 a1 -= 1 a1 *= 2 a1 /= 3 a1 %= 4 a1 |= 8 a1 &= 12 out(a1)",
        "a2: float = 1.5 a2 = a2 / 2.0 + 1 out(a2 > 1.0, a2 <= 2.0, a2 < 3.0, a2 >= 0.5, a2 == 1.75, a2 != 1.0)",
        "a3 := \"text with \\\"quotes\\\" \\\\ and\\n\" out(a3, strlen(a3))",
        "A4 :: 10 A5 :: \"const\" A6 :: 2.5 A7 :: true A8 :: 'x' out(A4, A5, A6, A7, A8)",
        "b1 := 0 while b1 < 3 { b1 += 1 if b1 == 2 { continue } out(b1) }",
        "for b2 := 0; b2 < 5; b2 += 1 { if b2 == 3 { break } else if b2 == 1 { out(b2) } else { out(-b2) } }",
        "func c1(x: int, y: float): int { z := x * 2 return z + 1 } out(c1(3, 1.0))",
        "func c2(n: int): int { if n <= 1 { return 1 } return n * c2(n - 1) } out(c2(5))",
        "func c3() { out(\"in\") return; } c3() func c4(s: str): str { return s } out(\"x\"->c4())",
        "struct D1 { v: int next: D1? name: str } func d0(): D1? { } d1 := new D1{1, d0(), \"n\"} d1.v = 2 d1.next = d1 out(d1.v, d1.name)",
        "struct D2 { a: int b: D3 } struct D3 { f: float } d2 := new D2{.b = new D3{1.5}, .a = 4} d2.b.f += 1.0 out(d2.b.f)",
        "use array(\"int\") as ints e1 := ints(3, 1, 2) ints_push(e1, 9) e1[0] = e1[1] + 5 ints_sort(e1) out(e1[0], ints_len(e1))",
        "use array(\"str\") as strs e2 := strs() for e3 := 0; e3 < 20; e3 += 1 { strs_push(e2, int_to_str(e3)) } out(strs_pop(e2))",
        "f1 := dict(\"k\", 1) f1[\"j\"] = \"v\" dict_put(f1, 5, 2.5) dict_remove(f1, \"k\") out(dict_get(f1, 5), dict_exists(f1, \"k\"), f1[\"j\"])",
        "struct G1 { a: int s: str b: bool f: float } use json(\"G1\") out(G1_to_json(new G1{1, \"s\\\"\", true, 0.5}))",
        "func h1(x: int): int { return x + 1 } use delegate(\"h1\") as h2 h3 := h2() out(delegate_int_int_call(h3, 4))",
        "i1 := mknat() i2: nat? = i1 i2 = i1 out(natid(i1), i1 == i1)",
        "func j1(a: any): int { return cast(a, int) } out(j1(7), cast(cast(\"s\", any), str))",
        "k1 := if true \"yes\" else \"no\" k2 := if 1 > 2 1 else 2 out(k1, k2, !true, !(1 == 1), true && false, true || false)",
        "out(1 << 4, 256 >> 2, 6 & 3, 6 | 9, 7 % 4, (1 + 2) * 3)",
        "// a comment\nout(strcat(\"a\", \"b\", \"c\"), substr(\"hello\", 1, 3), stridx(\"abc\", 1)) // trailing\n",
        "func l1(n: int) { for l2 := 0; l2 < n; l2 += 1 { l3 := l2 while l3 > 0 { l3 -= 1 if l3 == 1 { break } out(l2, l3) } } } l1(4)",
        "{ m1 := 1 { out(m1) } m1 = 2 out(m1) }",
        "n1 := box(hs(\"boxed\")) setbox(n1, n1) n2 := hs(\"a\", 1, \"b\") out(n2, strlen(n2))",
        "func o1(): any { return null } o2 := o1() out(o2, o2 == null, null == null) if o2 == null { out(1) } else { out(2) }",
        "func p1(a: int, b: int, c: int, d: int, e: int): int { q := a r := b s := c return q + r + s + d + e } out(p1(1, 2, 3, 4, p1(5, 6, 7, 8, 9)))",
        "r1 := dict_str_int(\"a\", 1) dict_str_int_put(r1, \"b\", 2) out(dict_str_int_get(r1, \"b\")) out(call_function(get_function_index(\"r2\"), 1)) func r2(x: int): int { return x }",
        "func s1(x: int): bool { out(x) return x > 0 } out(s1(1) && s1(0) || s1(2)) out(s1(0) && s1(1))",
        "struct T1 { l: any } t1 := new T1{null} t1.l = cast(t1, any) t2 := cast(t1.l, T1) out(t1 == t2)",
    };
    return u;
}
// Splits a source into its tokens; joining them with blanks gives an equivalent source.
inline std::vector<string> tokens(const string &s) {
    std::vector<string> t;
    size_t i = 0, n = s.size();
    static const char *two[] = {"&&", "||", ":=", "::", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "==", "!=", "<=", ">=", "->", "<<", ">>", 0};
    while (i < n) {
        if (isspace((unsigned char)s[i])) { ++i; continue; }
        size_t b = i;
        if (s.compare(i, 2, "//") == 0) { while (i < n && s[i] != '\n') ++i; continue; }
        if (s[i] == '"') { ++i; while (i < n && s[i] != '"') i += s[i] == '\\' ? 2 : 1; ++i; }
        else if (s[i] == '\'') { ++i; i += s[i] == '\\' ? 3 : 2; }
        else if (isalpha((unsigned char)s[i])) { while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '_')) ++i; }
        else if (isdigit((unsigned char)s[i])) { while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '.')) ++i; }
        else {
            ++i;
            for (int k = 0; two[k]; ++k) if (s.compare(b, 2, two[k]) == 0) { i = b + 2; break; }
        }
        t.push_back(s.substr(b, i - b));
    }
    return t;
}
inline string joined(const std::vector<string> &t, size_t from = 0, size_t to = (size_t)-1) {
    string o;
    for (size_t i = from; i < t.size() && i < to; ++i) { o += t[i]; o += ' '; }
    return o;
}
}  // namespace corpus
