//@ find_all | parallel_find_all: iterators, const range, moved range, continuation | length 0..6, symbolic values, cutoff 1..3, 1 departure
//@ find_end | parallel_find_end: with/without functor, continuation needle | haystack 0..6, needle 0..3, symbolic values 0..2, cutoff 1..3, 1 departure
//@ find_first_of | parallel_find_first_of: with/without functor, continuation | haystack 0..5, set 0..3, symbolic values, cutoff 1..3, 1 departure
//@ search | parallel_search: with/without functor, continuation needle | haystack 0..6, needle 0..3, symbolic values, cutoff 1..3, 1 departure
//@ search_n | parallel_search_n: with/without functor | length 0..6, count 0..4, symbolic values, cutoff 1..3, 1 departure
//@ adjacent | parallel_adjacent_find: with/without functor | length 0..7, symbolic values, cutoff 1..4, 1 departure
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
auto eqf = [](int const& a, int const& b) { return a == b; };
typedef std::vector<int>::iterator It;
extern "C" void find_all() {
    shape s = sym_shape(6 + TIER, 3); auto v = sym_vec(s.n), o = v; std::vector<int> r; auto p = order_pool(1); auto pr = [](int const& a) { return asym_conc(a > 5) != 0; };
    switch (sym_choice("overload", 4)) {
        case 0: r = in_pool(p, [&] { return ba::parallel_find_all(v.begin(), v.end(), pr, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_find_all(const_cast<std::vector<int> const&>(v), pr, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_find_all(std::move(v), pr, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_find_all(cb_source(v), pr, s.cut); }); break;
    }
    std::vector<int> w; for (int a : o) if (a > 5) w.push_back(a);
    CHECK(same(r, w), "parallel_find_all: not the matching elements in order"); asym_out("n", r.size()); asym_reach("end");
}
extern "C" void find_end() {
    int n = sym_choice("n", 7), m = sym_choice("m", 4); long cut = 1 + sym_choice("cut", 3); auto v = sym_vec(n, 0, 1), q = sym_vec(m, 0, 1, "q"), o = v, oq = q; It r; auto p = order_pool(1);
    switch (sym_choice("overload", 3)) {
        case 0: r = in_pool(p, [&] { return ba::parallel_find_end(v.begin(), v.end(), q.begin(), q.end(), eqf, cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_find_end(v.begin(), v.end(), q.begin(), q.end(), cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_find_end(v.begin(), v.end(), cb_source(q), eqf, cut); }); break;
    }
    CHECK(r - v.begin() == std::find_end(o.begin(), o.end(), oq.begin(), oq.end()) - o.begin(), "parallel_find_end: not the last occurrence"); asym_out("r", r - v.begin()); asym_reach("end");
}
extern "C" void find_first_of() {
    int n = sym_choice("n", 6), m = sym_choice("m", 4); long cut = 1 + sym_choice("cut", 3); auto v = sym_vec(n), q = sym_vec(m, "q"), o = v, oq = q; It r; auto p = order_pool(1);
    switch (sym_choice("overload", 3)) {
        case 0: r = in_pool(p, [&] { return ba::parallel_find_first_of(v.begin(), v.end(), q.begin(), q.end(), eqf, cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_find_first_of(v.begin(), v.end(), q.begin(), q.end(), cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_find_first_of(v.begin(), v.end(), cb_source(q), eqf, cut); }); break;
    }
    CHECK(r - v.begin() == std::find_first_of(o.begin(), o.end(), oq.begin(), oq.end()) - o.begin(), "parallel_find_first_of: not the first match"); asym_out("r", r - v.begin()); asym_reach("end");
}
extern "C" void search() {
    int n = sym_choice("n", 7), m = sym_choice("m", 4); long cut = 1 + sym_choice("cut", 3); auto v = sym_vec(n, 0, 1), q = sym_vec(m, 0, 1, "q"), o = v, oq = q; It r; auto p = order_pool(1);
    switch (sym_choice("overload", 3)) {
        case 0: r = in_pool(p, [&] { return ba::parallel_search(v.begin(), v.end(), q.begin(), q.end(), eqf, cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_search(v.begin(), v.end(), q.begin(), q.end(), cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_search(v.begin(), v.end(), cb_source(q), eqf, cut); }); break;
    }
    CHECK(r - v.begin() == std::search(o.begin(), o.end(), oq.begin(), oq.end()) - o.begin(), "parallel_search: not the first occurrence"); asym_out("r", r - v.begin()); asym_reach("end");
}
extern "C" void search_n() {
    int n = sym_choice("n", 7), c = sym_choice("count", 5); long cut = 1 + sym_choice("cut", 3); auto v = sym_vec(n), o = v; int x = sym_i32("x"); It r; auto p = order_pool(1);
    if (sym_flip("overload")) r = in_pool(p, [&] { return ba::parallel_search_n(v.begin(), v.end(), c, x, eqf, cut); });
    else r = in_pool(p, [&] { return ba::parallel_search_n(v.begin(), v.end(), c, x, cut); });
    CHECK(r - v.begin() == std::search_n(o.begin(), o.end(), c, x) - o.begin(), "parallel_search_n: not the first run"); asym_out("r", r - v.begin()); asym_reach("end");
}
extern "C" void adjacent() {
    shape s = sym_shape(7, 4); auto v = sym_vec(s.n), o = v; It r; auto p = order_pool(1);
    if (sym_flip("overload")) r = in_pool(p, [&] { return ba::parallel_adjacent_find(v.begin(), v.end(), eqf, s.cut); });
    else r = in_pool(p, [&] { return ba::parallel_adjacent_find(v.begin(), v.end(), s.cut); });
    CHECK(r - v.begin() == std::adjacent_find(o.begin(), o.end()) - o.begin(), "parallel_adjacent_find: not the first pair"); asym_out("r", r - v.begin()); asym_reach("end");
}
