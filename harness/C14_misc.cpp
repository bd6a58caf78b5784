//@ fill | parallel_fill: iterators, const range, moved range, continuation | length 0..5, cutoff 1..3, 1 departure
//@ generate | parallel_generate: iterators, const range, moved range, continuation | length 0..5, cutoff 1..3, 1 departure
//@ iota | parallel_iota: iterators, moved range; symbolic start | length 0..6, cutoff 1..4, 2 departures
//@ reverse | parallel_reverse: iterators, moved range, continuation | length 0..7, cutoff 1..4, 1 departure
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
template<class R> bool all_are(R const& r, int n, int x) { bool ok = r.size() == (size_t)n; for (auto& e : r) ok &= e == x; return ok; }
extern "C" void fill() {
    shape s = sym_shape(5, 3); auto v = sym_vec(s.n); int x = sym_i32("x"); auto p = order_pool(1); bool ok = true;
    switch (sym_choice("overload", 5)) {
        case 0: { guarded<int> g(v, 5, 6); in_pool(p, [&] { return ba::parallel_fill(g.begin(), g.end(), x, s.cut); }); ok = g.intact(); for (auto i = g.begin(); i != g.end(); ++i) ok &= *i == x; break; }
        case 1: in_pool(p, [&] { return ba::parallel_fill(const_cast<std::vector<int> const&>(v), x, s.cut); }); ok = all_are(v, s.n, x); break;
        case 2: ok = all_are(in_pool(p, [&] { return ba::parallel_fill(std::move(v), x, s.cut); }), s.n, x); break;
        case 3: ok = all_are(in_pool(p, [&] { return ba::parallel_fill(cb_source(v), x, s.cut); }), s.n, x); break;
        case 4: ok = all_are(in_pool(p, [&] { return ba::parallel_fill(fu_source(v), x, s.cut); }), s.n, x); break;
    }
    CHECK(ok, "parallel_fill: not every element of the range, and nothing else, has the value"); asym_reach("end");
}
extern "C" void generate() {
    shape s = sym_shape(5, 3); auto v = sym_vec(s.n); auto p = order_pool(1); static int c; c = 0; auto gen = [] { return 100 + c++; }; std::vector<int> r; bool ok = true;
    switch (sym_choice("overload", 5)) {
        case 0: { guarded<int> g(v, 5, 6); in_pool(p, [&] { return ba::parallel_generate(g.begin(), g.end(), gen, s.cut); }); ok = g.intact(); r.assign(g.begin(), g.end()); break; }
        case 1: in_pool(p, [&] { return ba::parallel_generate(const_cast<std::vector<int> const&>(v), gen, s.cut); }); r = v; break;
        case 2: r = in_pool(p, [&] { return ba::parallel_generate(std::move(v), gen, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_generate(cb_source(v), gen, s.cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_generate(fu_source(v), gen, s.cut); }); break;
    }
    ok &= r.size() == (size_t)s.n && c == s.n; std::sort(r.begin(), r.end()); for (size_t i = 0; i < r.size(); i++) ok &= r[i] == 100 + (int)i;
    CHECK(ok, "parallel_generate: not every element has its own generated value"); asym_reach("end");
}
extern "C" void iota() {
    shape s = sym_shape(6, 4); int x = sym_i32("x"); auto p = order_pool(2); std::vector<int> r; bool ok = true; auto v = std::vector<int>(s.n, -1);
    if (sym_flip("overload")) { guarded<int> g(v, 5, 6); in_pool(p, [&] { return ba::parallel_iota(g.begin(), g.end(), x, s.cut); }); ok = g.intact(); r.assign(g.begin(), g.end()); }
    else r = in_pool(p, [&] { return ba::parallel_iota(std::move(v), x, s.cut); });
    ok &= r.size() == (size_t)s.n; for (size_t i = 0; i < r.size(); i++) ok &= r[i] == x + (int)i;
    CHECK(ok, "parallel_iota: element i is not start + i"); asym_reach("end");
}
extern "C" void reverse() {
    shape s = sym_shape(7 + TIER * 2, 4); auto v = sym_vec(s.n), o = v; auto p = order_pool(1); std::vector<int> r; bool ok = true;
    switch (sym_choice("overload", 4)) {
        case 0: { guarded<int> g(v, 5, 6); in_pool(p, [&] { return ba::parallel_reverse(g.begin(), g.end(), s.cut); }); ok = g.intact(); r.assign(g.begin(), g.end()); break; }
        case 1: r = in_pool(p, [&] { return ba::parallel_reverse(std::move(v), s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_reverse(cb_source(v), s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_reverse(fu_source(v), s.cut); }); break;
    }
    ok &= r.size() == (size_t)s.n; for (int i = 0; i < s.n && i < (int)r.size(); i++) ok &= r[i] == o[s.n - 1 - i];
    CHECK(ok, "parallel_reverse: not the reversed range"); asym_reach("end");
}
