//@ leaf | stable sorts, chunks longer than the insertion sort limit of the standard library: iterators, range reference, moved range, continuation, in place | length 20 and 40, 3 symbolic keys (any 32-bit value) among fixed ones, cutoff 20, FIFO order
//@ leaf_us | the same for parallel_sort, its in-place variants and parallel_quicksort | length 20 and 40, 2 symbolic keys among fixed ones, cutoff 20
#include "sortcommon.h"
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
typedef std::vector<kv> V;
static V big(int n, int nsym) { V v(n); for (int i = 0; i < n; i++) { v[i].id = i; v[i].key = (i * 7 + 3) % 4; } const int pos[3] = {0, n / 2 - 1, n - 3}; for (int i = 0; i < nsym; i++) v[pos[i]].key = sym_i32("k"); return v; }
extern "C" void leaf() {
    int n = sym_flip("n") ? 40 : 20; V v = big(n, n == 20 ? 3 : 1 + TIER), o = v; auto p = order_pool(0); int var = sym_choice("overload", 8);
    switch (var) {
        case 0: in_pool(p, [&] { return ba::parallel_stable_sort(v.begin(), v.end(), lt, 20); }); break;
        case 1: v = in_pool(p, [&] { return ba::parallel_stable_sort(std::move(v), lt, 20); }); break;
        case 2: v = in_pool(p, [&] { return ba::parallel_stable_sort(cb_source(v), lt, 20); }); break;
        case 3: v = in_pool(p, [&] { return ba::parallel_stable_sort2(std::move(v), lt, 20); }); break;
        case 4: in_pool(p, [&] { return ba::parallel_stable_sort_inplace(v.begin(), v.end(), lt, 20); }); break;
        case 5: in_pool(p, [&] { return ba::parallel_stable_sort_inplace(v, lt, 20); }); break;
        case 6: v = in_pool(p, [&] { return ba::parallel_stable_sort_move_inplace(std::move(v), lt, 20); }); break;
        case 7: v = in_pool(p, [&] { return ba::parallel_stable_sort2(cb_source(v), lt, 20); }); break;
    }
    sorted_ok(v, o, lt, true); asym_reach("end");
}
extern "C" void leaf_us() {
    int n = sym_flip("n") ? 40 : 20; V v = big(n, 1 + TIER), o = v; auto p = order_pool(0); int var = sym_choice("overload", 6);
    switch (var) {
        case 0: in_pool(p, [&] { return ba::parallel_sort(v.begin(), v.end(), lt, 20); }); break;
        case 1: v = in_pool(p, [&] { return ba::parallel_sort(std::move(v), lt, 20); }); break;
        case 2: v = in_pool(p, [&] { return ba::parallel_sort2(std::move(v), lt, 20); }); break;
        case 3: in_pool(p, [&] { return ba::parallel_sort_inplace(v.begin(), v.end(), lt, 20); }); break;
        case 4: v = in_pool(p, [&] { return ba::parallel_sort_move_inplace(std::move(v), lt, 20); }); break;
        case 5: in_pool(p, [&] { return ba::parallel_quicksort(v.begin(), v.end(), lt, 20, 2); }); break;
    }
    sorted_ok(v, o, lt, false); asym_reach("end");
}
