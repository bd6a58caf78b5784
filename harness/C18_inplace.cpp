//@ inplace_it | parallel_sort_inplace / parallel_stable_sort_inplace: iterators and range reference | length 0..5, symbolic keys, cutoff 1..3, FIFO order
//@ inplace01 | parallel_(stable_)sort_inplace, deep recursion | length 6..8, keys 0..1, cutoff 1..3
//@ inplace_range | parallel_(stable_)sort_move_inplace and continuation | length 0..4, symbolic keys, cutoff 1..2, 1 departure
//@ quick | parallel_quicksort | length 0..4 (thorough 5), symbolic keys, cutoff 1..3, threads 1..3
//@ quick01 | parallel_quicksort, deep recursion | length 6..7 (thorough 9), keys 0..1, cutoff 1..2 (3), threads 1..2 (3)
#include "sortcommon.h"
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
typedef std::vector<kv> V;
extern "C" void inplace_it() {
    shape s = sym_shape(5, 3); V v = kv_vec(s.n, 0, 0), o = v; auto p = order_pool(0); int var = sym_choice("overload", 4);
    switch (var) {
        case 0: in_pool(p, [&] { return ba::parallel_sort_inplace(v.begin(), v.end(), lt, s.cut); }); break;
        case 1: in_pool(p, [&] { return ba::parallel_stable_sort_inplace(v.begin(), v.end(), lt, s.cut); }); break;
        case 2: in_pool(p, [&] { return ba::parallel_sort_inplace(v, lt, s.cut); }); break;
        case 3: in_pool(p, [&] { return ba::parallel_stable_sort_inplace(v, lt, s.cut); }); break;
    }
    sorted_ok(v, o, lt, var & 1); asym_reach("end");
}
extern "C" void inplace01() {
    int n = 6 + sym_choice("n", 3); long cut = 1 + sym_choice("cut", 3); V v = kv_vec(n, 0, 1), o = v; auto p = order_pool(TIER); bool st = sym_flip("stable");
    if (st) in_pool(p, [&] { return ba::parallel_stable_sort_inplace(v.begin(), v.end(), lt, cut); }); else in_pool(p, [&] { return ba::parallel_sort_inplace(v.begin(), v.end(), lt, cut); });
    sorted_ok(v, o, lt, st); asym_reach("end");
}
extern "C" void inplace_range() {
    shape s = sym_shape(4, 2); V v = kv_vec(s.n, 0, 0), o = v, r; auto p = order_pool(1); int var = sym_choice("overload", 4);
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_sort_move_inplace(std::move(v), lt, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_stable_sort_move_inplace(std::move(v), lt, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_sort_inplace(cb_source(v), lt, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_stable_sort_inplace(cb_source(v), lt, s.cut); }); break;
    }
    sorted_ok(r, o, lt, var & 1); asym_reach("end");
}
extern "C" void quick() {
    shape s = sym_shape(4 + TIER, 3); V v = kv_vec(s.n, 0, 0), o = v; auto p = order_pool(0); unsigned th = 1 + sym_choice("threads", 3); V a; a.push_back(kv{7, 98}); a.insert(a.end(), v.begin(), v.end()); a.push_back(kv{-7, 99});
    in_pool(p, [&] { return ba::parallel_quicksort(a.begin() + 1, a.end() - 1, lt, s.cut, th); });
    CHECK(a.front().id == 98 && a.back().id == 99, "sort: wrote outside the range"); sorted_ok(V(a.begin() + 1, a.end() - 1), o, lt, false); asym_reach("end");
}
extern "C" void quick01() {
    int n = 6 + sym_choice("n", 2 + 2 * TIER); long cut = 1 + sym_choice("cut", 2 + TIER); V v = kv_vec(n, 0, 1), o = v; auto p = order_pool(0); unsigned th = 1 + sym_choice("threads", 2 + TIER);
    in_pool(p, [&] { return ba::parallel_quicksort(v.begin(), v.end(), lt, cut, th); });
    sorted_ok(v, o, lt, false); asym_reach("end");
}
