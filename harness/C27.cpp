//@ channel time=200 | channel_topic::matches against an element-by-element reference; topic and string overload; equality | subscription and publication topics of length 0..5 and 0..6 (thorough one more) over every 7-bit character
//@ words time=60 | the same over topics of up to 3 elements of one or two letters, with and without trailing separators | elements symbolic over {'.','a'..'c'} x up to 2 characters
//@ custom | channel_topic with another separator and wildcard | topics of length 0..4 over every 7-bit character
//@ exact | exact_topic matches exactly equal topics, no_topic everything | topics of length 0..4 over every 7-bit character
#include "asym.h"
#include <string>
#include <algorithm>
#include <map>
#include <vector>
#include <boost/asynchronous/notification/topics.hpp>
namespace sub = boost::asynchronous::subscription;
static std::string sym_str(const char* nm, int maxn) { int n = sym_choice("len", maxn + 1); std::string s; for (int i = 0; i < n; i++) { unsigned char c = sym_u8(nm); asym_assume((c >= 1) & (c < 127)); s.push_back((char)c); } return s; }
static std::vector<std::string> split(std::string s, char sep) { while (!s.empty() && s[s.size() - 1] == sep) s.resize(s.size() - 1); std::vector<std::string> r; if (s.empty()) return r; std::string cur; for (size_t i = 0; i < s.size(); i++) if (s[i] == sep) { r.push_back(cur); cur.clear(); } else cur.push_back(s[i]); r.push_back(cur); return r; }
static bool eqs(std::string const& a, std::string const& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
// 1 matches, 0 does not, -1 not fixed by the grammar (a wildcard against an empty element)
static int ref(std::string const& s, std::string const& p, char sep, char wild) {
    auto a = split(s, sep), b = split(p, sep); if (a.size() > b.size()) return 0; int r = 1;
    for (size_t i = 0; i < a.size(); i++) { bool w = a[i].size() == 1 && a[i][0] == wild; if (w) { if (b[i].empty()) r = -1; continue; } if (!eqs(a[i], b[i])) return 0; }
    return r;
}
template<class T> void judge(std::string const& a, std::string const& b, char sep, char wild) {
    T ta(a), tb(std::string{b}); int e = ref(a, b, sep, wild); bool r = ta.matches(tb), rs = ta.matches(b);
    CHECK(r == rs, "channel_topic: the topic and the string overload disagree"); if (e >= 0) CHECK(r == (e == 1), "channel_topic::matches: wrong answer");
    CHECK(ta.matches(tb) == r, "channel_topic::matches: second answer differs"); CHECK(ta.matches(ta), "a topic does not match itself");
    bool q = eqs(a, b); CHECK((ta == tb) == q && (ta != tb) == !q && (ta == b) == q && (ta != b) == !q, "channel_topic: wrong equality"); CHECK(eqs(to_string(ta), a) && eqs(tb.to_string(), b), "channel_topic: to_string is not the topic");
    asym_out("r", r); asym_reach("end");
}
extern "C" void channel() { std::string a = sym_str("s", 5 + TIER), b = sym_str("p", 6 + TIER); judge<sub::channel_topic<>>(a, b, '/', '.'); }
static std::string words(const char* nm) { int k = 1 + sym_choice("k", 3); std::string s; for (int i = 0; i < k; i++) { if (i) s.push_back('/'); int l = 1 + sym_choice("l", i == 1 ? 2 : 1); for (int j = 0; j < l; j++) { unsigned char c = sym_u8(nm); asym_assume((c == '.') | ((c >= 'a') & (c <= 'c'))); s.push_back((char)c); } } if (sym_flip("trail")) s.push_back('/'); return s; }
extern "C" void words_() asm("words"); extern "C" void words_() { judge<sub::channel_topic<>>(words("s"), words("p"), '/', '.'); }
extern "C" void custom() { std::string a = sym_str("s", 4), b = sym_str("p", 4+TIER); judge<sub::channel_topic<':', '*'>>(a, b, ':', '*'); }
extern "C" void exact() {
    std::string a = sym_str("s", 4), b = sym_str("p", 4); bool q = eqs(a, b); sub::exact_topic<std::string> ta(a), tb(std::string{b});
    CHECK(ta.matches(tb) == q && ta.matches(b) == q && (ta == tb) == q && (ta != tb) == !q && eqs(to_string(ta), a), "exact_topic: wrong answer");
    sub::no_topic x, y; CHECK(x.matches(y) && x == y && !(x != y), "no_topic must match everything"); asym_reach("end");
}
