//@@ -DBOOST_ASYNCHRONOUS_USE_BOOST_SPREADSORT
//@ spread | parallel_spreadsort / _inplace / _move_inplace / spreadsort2 / quick_spreadsort over ints | length 0..4, symbolic 32-bit values, cutoff 1..2
#include "common.h"
#include <boost/sort/spreadsort/spreadsort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
extern "C" void spread() {
    shape s = sym_shape(4, 2); auto v = sym_vec(s.n), o = v; auto p = order_pool(0); std::less<int> f;
    switch (sym_choice("overload", 8)) {
        case 0: in_pool(p, [&] { return ba::parallel_spreadsort(v.begin(), v.end(), f, s.cut); }); break;
        case 1: v = in_pool(p, [&] { return ba::parallel_spreadsort(std::move(v), f, s.cut); }); break;
        case 2: v = in_pool(p, [&] { return ba::parallel_spreadsort2(std::move(v), f, s.cut); }); break;
        case 3: v = in_pool(p, [&] { return ba::parallel_spreadsort(cb_source(v), f, s.cut); }); break;
        case 4: in_pool(p, [&] { return ba::parallel_spreadsort_inplace(v.begin(), v.end(), f, s.cut); }); break;
        case 5: v = in_pool(p, [&] { return ba::parallel_spreadsort_move_inplace(std::move(v), f, s.cut); }); break;
        case 6: in_pool(p, [&] { return ba::parallel_quick_spreadsort(v.begin(), v.end(), f, s.cut, 2); }); break;
        case 7: v = in_pool(p, [&] { return ba::parallel_spreadsort_inplace(cb_source(v), f, s.cut); }); break;
    }
    CHECK(v.size() == o.size(), "sort: wrong length"); bool ord = true, perm = true; for (int i = 1; i < s.n; i++) ord &= v[i - 1] <= v[i];
    for (int i = 0; i < s.n; i++) { int a = 0, b = 0; for (int j = 0; j < s.n; j++) { a += v[j] == o[i]; b += o[j] == o[i]; } perm &= a == b; }
    CHECK(ord, "spreadsort: not sorted"); CHECK(perm, "spreadsort: not a permutation"); asym_reach("end");
}
