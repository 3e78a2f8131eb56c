// Small helpers to build program texts.
#pragma once
#include <string>
#include <vector>
namespace gen {
using std::string;
inline string I(long long n) { return std::to_string(n); }
inline string rep(const string &s, int n) { string o; while (n-- > 0) o += s; return o; }
inline string join(const std::vector<string> &v, const string &sep) {
    string o;
    for (size_t i = 0; i < v.size(); ++i) { if (i) o += sep; o += v[i]; }
    return o;
}
// Replaces every occurrence of `from`.
inline string sub(string s, const string &from, const string &to) {
    size_t p = 0;
    while ((p = s.find(from, p)) != string::npos) { s.replace(p, from.size(), to); p += to.size(); }
    return s;
}
inline string lit(const string &bytes) {   // a string literal denoting these bytes
    string o = "\"";
    for (char c : bytes) { if (c == '"' || c == '\\') o += '\\'; o += c; }
    return o + "\"";
}
}  // namespace gen
