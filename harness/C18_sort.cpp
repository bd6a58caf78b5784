//@ sort_it | parallel_sort / parallel_stable_sort over iterators, ascending and descending | length 0..5, symbolic 32-bit keys, cutoff 1..3, FIFO chunk order
//@ sort01 | parallel_sort / parallel_stable_sort over iterators, deep recursion | length 6..8, keys 0..1, cutoff 1..3, 1 departure
//@ range | moved range and continuations: sort, stable_sort | length 0..4, symbolic keys, cutoff 1..2, 1 departure
//@ ranges2 | parallel_sort2 / parallel_stable_sort2: moved range and continuation | length 0..4, symbolic keys, cutoff 1..2, 1 departure
#include "sortcommon.h"
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
typedef std::vector<kv> V;
extern "C" void sort_it() {
    shape s = sym_shape(5, 3); V v = kv_vec(s.n, 0, 0), o = v; auto p = order_pool(0); V a; a.push_back(kv{7, 98}); a.insert(a.end(), v.begin(), v.end()); a.push_back(kv{-7, 99}); int var = sym_choice("overload", 3);
    switch (var) {
        case 0: in_pool(p, [&] { return ba::parallel_sort(a.begin() + 1, a.end() - 1, lt, s.cut); }); break;
        case 1: in_pool(p, [&] { return ba::parallel_stable_sort(a.begin() + 1, a.end() - 1, lt, s.cut); }); break;
        case 2: in_pool(p, [&] { return ba::parallel_stable_sort(a.begin() + 1, a.end() - 1, gt, s.cut); }); break;
    }
    CHECK(a.front().id == 98 && a.back().id == 99, "sort: wrote outside the range"); V r(a.begin() + 1, a.end() - 1);
    if (var == 2) sorted_ok(r, o, gt, true); else sorted_ok(r, o, lt, var == 1); asym_reach("end");
}
extern "C" void sort01() {
    int n = 6 + sym_choice("n", 3); long cut = 1 + sym_choice("cut", 3); V v = kv_vec(n, 0, 1), o = v; auto p = order_pool(TIER); bool st = sym_flip("stable");
    if (st) in_pool(p, [&] { return ba::parallel_stable_sort(v.begin(), v.end(), lt, cut); }); else in_pool(p, [&] { return ba::parallel_sort(v.begin(), v.end(), lt, cut); });
    sorted_ok(v, o, lt, st); asym_reach("end");
}
extern "C" void range() {
    shape s = sym_shape(4, 2); V v = kv_vec(s.n, 0, 0), o = v, r; auto p = order_pool(1); int var = sym_choice("overload", 4);
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_sort(std::move(v), lt, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_stable_sort(std::move(v), lt, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_sort(cb_source(v), lt, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_stable_sort(cb_source(v), lt, s.cut); }); break;
    }
    sorted_ok(r, o, lt, var & 1); asym_reach("end");
}
extern "C" void ranges2() {
    shape s = sym_shape(4, 2); V v = kv_vec(s.n, 0, 0), o = v, r; auto p = order_pool(1); int var = sym_choice("overload", 4);
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_sort2(std::move(v), lt, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_stable_sort2(std::move(v), lt, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_sort2(cb_source(v), lt, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_stable_sort2(cb_source(v), lt, s.cut); }); break;
    }
    sorted_ok(r, o, lt, var & 1); asym_reach("end");
}
