// Consistent renaming of what a program defines.
#pragma once
#include <map>
#include <set>
#include "corpus.hpp"
namespace rn {
using std::string;
inline bool ident(const string &t) { return !t.empty() && isalpha((unsigned char)t[0]); }
// More programs, which use names in every role.
inline const std::vector<string> MORE = {
    "struct Node { val: int next: any } func Node_get_index(n: Node, i: int): int { return n.val + i } func Node_set_index(n: Node, i: int, v: int) { n.val = v + i } nd := new Node{4, null} nd[2] = 5 out(nd[1], nd.val) nd[1] += 3 out(nd[0])",
    "LIM :: 3 func fact(num: int): int { if num <= 1 return 1 return num * fact(num - 1) } tot := 0 for cnt := 0; cnt < LIM; cnt += 1 { loc := fact(cnt) tot += loc } out(tot, fact(LIM))",
    "struct Pa { one: int two: str } struct Pb { one: str two: Pa } pa := new Pa{.two = \"t\", .one = 1} pb := new Pb{\"o\", pa} pb.two.one += 4 out(pb.one, pb.two.two, pa.one)",
    "glob := 1 func shadow(glob: int): int { inner := glob + 1 { deeper := inner * 2 inner = deeper } return inner } out(shadow(10), glob) func later(): int { return glob } glob = 5 out(later())",
    "func even(num: int): bool { if num == 0 { return true } return odd(num - 1) } func odd(num: int): bool { if num == 0 { return false } return even(num - 1) } out(even(4), odd(4))",
    "use array(\"int\") as listed use array(\"str\") as list one := listed(3, 1) two := list(\"q\") listed_push(one, 2) list_push(two, \"r\") listed_sort(one) out(one[0], two[1], listed_len(one), list_len(two), list_pop(two))",
    "func work(item: int, text: str): str { return strcat(text, int_to_str(item)) } use delegate(\"work\") as worker func other(item: int, text: str): str { return text } use delegate(\"other\") as others ww := worker() oo := others() out(delegate_int_str_str_call(ww, 3, \"n\"), delegate_int_str_str_call(oo, 4, \"m\"))",
    "struct Inn { num: int } struct Outr { sub: Inn name: str } use json(\"Inn\") use json(\"Outr\") oo := new Outr{new Inn{7}, \"nm\"} out(Outr_to_json(oo), Inn_to_json(oo.sub))",
    "func maybe(flag: bool): Opt? { if flag { return new Opt{1} } } struct Opt { opt: int } res := maybe(true) non := maybe(false) out(res == null, non == null)",
    "func first(arg: any): str { return \"1\" } func second(arg: any): str { return \"2\" } func third(arg: any): str { return \"3\" } out(call_function(get_function_index(\"second\"), null), first(null)->third(), 5->first())",
    "aa := 1 bb := 2 cc := 3 dd := 4 ee := 5 ff := 6 gg := 7 hh := 8 out(aa, bb, cc, dd, ee, ff, gg, hh) func swap(aa: int, bb: int): int { cc := aa dd := bb return cc * 10 + dd } out(swap(bb, aa), swap(hh, gg)) hh = ee out(hh)",
    "C1 :: \"one\" C2 :: 2 C3 :: 2.5 C4 :: true func show() { out(C1, C2, C3, C4) } show() v1 := C2 v1 += C2 out(v1)",
};
struct Names {
    std::vector<string> all;                       // in order of appearance
    std::map<string, char> kind;                   // v variable, parameter or field; k constant; f function; s struct; a alias of `use`
};
inline Names collect(const std::vector<string> &t) {
    Names n;
    auto add = [&](const string &x, char k) { if (!n.kind.count(x)) { n.all.push_back(x); n.kind[x] = k; } else if (k == 's' || k == 'a') n.kind[x] = k; };
    for (size_t i = 0; i < t.size(); ++i) {
        if (!ident(t[i])) continue;
        if (i && t[i - 1] == "func") add(t[i], 'f');
        else if (i && t[i - 1] == "struct") add(t[i], 's');
        else if (i && t[i - 1] == "as") add(t[i], 'a');
        else if (i + 1 < t.size() && (t[i + 1] == ":=" || t[i + 1] == ":")) add(t[i], 'v');
        else if (i + 1 < t.size() && t[i + 1] == "::") add(t[i], 'k');
    }
    // what the program itself names after a type follows the type's name
    for (size_t i = 0; i < n.all.size();) {
        bool derived = false;
        for (auto &[a, k] : n.kind) if ((k == 's' || k == 'a') && n.kind[n.all[i]] == 'f' && n.all[i].compare(0, a.size() + 1, a + "_") == 0) derived = true;
        if (derived) { n.kind.erase(n.all[i]); n.all.erase(n.all.begin() + i); } else ++i;
    }
    return n;
}
inline string apply(const std::vector<string> &t, const Names &n, const std::map<string, string> &to) {
    string o;
    for (auto &x : t) {
        string y = x;
        if (ident(x)) {
            auto it = to.find(x);
            if (it != to.end()) y = it->second;
            else
                for (auto &[a, k] : n.kind)        // names the library derives: ints_push, S_to_json
                    if ((k == 's' || k == 'a') && to.count(a) && x.size() > a.size() + 1 && x.compare(0, a.size() + 1, a + "_") == 0) { y = to.at(a) + x.substr(a.size()); break; }
        } else if (x.size() > 2 && x[0] == '"') {
            auto it = to.find(x.substr(1, x.size() - 2));
            if (it != to.end()) y = "\"" + it->second + "\"";
        }
        o += y;
        o += ' ';
    }
    return o;
}
}  // namespace rn
