//@ finds | find_all, search, search_n, find_end, find_first_of, adjacent_find: k-th call throws, every k; failing needle | 4 elements, needle 2, cutoff 1..2, 1 departure
//@ compares | mismatch, equal, lexicographical_compare, is_sorted, is_partitioned, kmp: k-th call throws | 4 elements, cutoff 1..2, 1 departure
//@ sorts | every sort overload, nth_element, partial_sort, quicksort: k-th comparison throws | 4 elements in reverse or mixed order, cutoff 1..2, every k up to 12, failing source, 1 departure
//@ parts | partition, stable_partition, unique, reverse, swap_ranges, merge, group_by, flatten: k-th call throws | 4 elements, cutoff 1..2, failing source, 1 departure
//@ elements | the default construction of an element fails inside a sort: the exception is the result, all elements are destroyed once | every sort overload with a merge buffer, 4 elements, cutoff 1..2, k-th construction throws, 1 departure
#include "throwcommon.h"
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include <boost/asynchronous/algorithm/parallel_kmp.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include <boost/asynchronous/algorithm/parallel_flatten.hpp>
static void init_tick(int kmax) { init_throw(0); throwat = sym_choice("throws at call", kmax + 1); }
static auto eq = [](int const& a, int const& b) { tick(); return a == b; };
static auto lt = [](int const& a, int const& b) { tick(); return a < b; };
static auto ev = [](int const& a) { tick(); return (a & 1) == 0; };
typedef std::vector<int> V;
extern "C" void finds() {
    init_tick(5); long cut = 1 + sym_choice("cut", 2); V v{1, 2, 1, 3}, q{1, 3}; auto p = order_pool(1);
    switch (sym_choice("overload", 11)) {
        OV(0, ba::parallel_find_all(v.begin(), v.end(), ev, cut)) OV(1, ba::parallel_find_all(const_cast<V const&>(v), ev, cut)) OV(2, ba::parallel_find_all(std::move(v), ev, cut)) OV(3, ba::parallel_find_all(csrc(v), ev, cut))
        OV(4, ba::parallel_find_end(v.begin(), v.end(), q.begin(), q.end(), eq, cut)) OV(5, ba::parallel_find_end(v.begin(), v.end(), csrc(q), eq, cut)) OV(6, ba::parallel_find_first_of(v.begin(), v.end(), q.begin(), q.end(), eq, cut)) OV(7, ba::parallel_find_first_of(v.begin(), v.end(), csrc(q), eq, cut))
        OV(8, ba::parallel_search(v.begin(), v.end(), q.begin(), q.end(), eq, cut)) OV(9, ba::parallel_search(v.begin(), v.end(), csrc(q), eq, cut)) OV(10, ba::parallel_search_n(v.begin(), v.end(), 2, 1, eq, cut))
    } if (sym_flip("adjacent")) { init_tick(5); V w{1, 2, 3, 4}; outcome(p, [&] { return ba::parallel_adjacent_find(w.begin(), w.end(), eq, cut); }); }
    asym_reach("end");
}
struct hits { int n = 0; template<class I> void operator()(I const&) { tick(); n++; } void merge(hits&& o) { n += o.n; } };
extern "C" void compares() {
    init_tick(5); long cut = 1 + sym_choice("cut", 2); V v{2, 2, 4, 5}, w{2, 2, 4, 5}, q{2}; auto p = order_pool(1);
    switch (sym_choice("overload", 9)) {
        OV(0, ba::parallel_mismatch(v.begin(), v.end(), w.begin(), eq, cut)) OV(1, ba::parallel_equal(v.begin(), v.end(), w.begin(), eq, cut)) OV(2, ba::parallel_lexicographical_compare(v.begin(), v.end(), w.begin(), w.end(), lt, cut))
        OV(3, ba::parallel_is_sorted(v.begin(), v.end(), lt, cut)) OV(4, ba::parallel_is_reverse_sorted(w.begin(), w.begin() + 2, lt, cut)) OV(5, ba::parallel_is_partitioned(v.begin(), v.end(), ev, cut))
        OV(6, ba::parallel_kmp(v.begin(), v.end(), q.begin(), q.end(), hits(), cut)) OV(7, ba::parallel_kmp(csrc(v), csrc(q), hits(), cut)) OV(8, ba::parallel_kmp(std::move(v), std::move(q), hits(), cut))
    } asym_reach("end");
}
extern "C" void sorts() {
    init_tick(12 + 4 * TIER); long cut = 1 + sym_choice("cut", 2); V v{3, 2, 1, 0}; if (sym_choice("shape", 2)) v = V{1, 3, 0, 2}; auto p = order_pool(1);
    switch (sym_choice("overload", 21)) {
        OV(0, ba::parallel_sort(v.begin(), v.end(), lt, cut)) OV(1, ba::parallel_stable_sort(v.begin(), v.end(), lt, cut)) OV(2, ba::parallel_sort(std::move(v), lt, cut)) OV(3, ba::parallel_stable_sort(std::move(v), lt, cut)) OV(4, ba::parallel_sort(csrc(v), lt, cut)) OV(5, ba::parallel_stable_sort(csrc(v), lt, cut))
        OV(6, ba::parallel_sort2(std::move(v), lt, cut)) OV(7, ba::parallel_stable_sort2(std::move(v), lt, cut)) OV(8, ba::parallel_sort2(csrc(v), lt, cut)) OV(9, ba::parallel_stable_sort2(csrc(v), lt, cut))
        OV(10, ba::parallel_sort_inplace(v.begin(), v.end(), lt, cut)) OV(11, ba::parallel_stable_sort_inplace(v.begin(), v.end(), lt, cut)) OV(12, ba::parallel_sort_inplace(v, lt, cut)) OV(13, ba::parallel_stable_sort_inplace(v, lt, cut)) OV(14, ba::parallel_sort_move_inplace(std::move(v), lt, cut)) OV(15, ba::parallel_stable_sort_move_inplace(std::move(v), lt, cut)) OV(16, ba::parallel_sort_inplace(csrc(v), lt, cut)) OV(17, ba::parallel_stable_sort_inplace(csrc(v), lt, cut))
        OV(18, ba::parallel_quicksort(v.begin(), v.end(), lt, cut, 2)) OV(19, ba::parallel_nth_element(v.begin(), v.begin() + 2, v.end(), lt, cut, 2)) OV(20, ba::parallel_partial_sort(v.begin(), v.begin() + 2, v.end(), lt, cut, 2))
    } asym_reach("end");
}
struct cmp_t { bool operator()(int const& a, int const& b) const { tick(); return a < b; } };
extern "C" void parts() {
    init_tick(5); long cut = 1 + sym_choice("cut", 2); V v{1, 2, 3, 4}, w{1, 2, 5, 6}, out(8); auto p = order_pool(1); std::vector<std::vector<int>> vv{{1}, {2, 3}, {}, {4}};
    int k = sym_choice("overload", 17); std::vector<ta> tv, tw; for (int i = 0; i < 4; i++) { tv.emplace_back(i); tw.emplace_back(4 + i); } if (k >= 14) { init_throw(4); }
    switch (k) {
        OV(0, ba::parallel_partition(v.begin(), v.end(), ev, 2)) OV(1, ba::parallel_partition(std::move(v), ev, 2)) OV(2, ba::parallel_partition(csrc(v), ev, 2)) OV(3, ba::parallel_stable_partition(v.begin(), v.end(), out.begin(), ev, cut)) OV(4, ba::parallel_stable_partition(std::move(v), ev, cut)) OV(5, ba::parallel_stable_partition(csrc(v), ev, cut))
        OV(6, ba::parallel_unique(v.begin(), v.end(), eq, cut)) OV(7, ba::parallel_unique(csrc(v), eq, cut)) OV(8, ba::parallel_merge(v.begin(), v.end(), w.begin(), w.end(), out.begin(), lt, cut))
        OV(9, ba::parallel_group_by<std::vector<V>>(v.begin(), v.end(), cmp_t(), cut)) OV(10, ba::parallel_group_by<std::vector<V>>(std::move(v), cmp_t(), cut)) OV(11, ba::parallel_group_by<std::vector<V>>(csrc(v), cmp_t(), cut)) OV(12, ba::parallel_flatten(csrc(vv), cut, cut)) OV(13, ba::parallel_reverse(csrc(v), cut))
        OV(14, ba::parallel_reverse(tv.begin(), tv.end(), cut)) OV(15, ba::parallel_reverse(std::move(tv), cut)) OV(16, ba::parallel_swap_ranges(tv.begin(), tv.end(), tw.begin(), cut))
    } asym_reach("end");
}

static int te_live = 0, te_bad = 0;
struct te { int v; unsigned m; te() : v(0) { tick(); m = 77; te_live++; } te(int i) : v(i), m(77) { te_live++; } te(te const& o) : v(o.v), m(77) { te_bad += o.m != 77; te_live++; } te(te&& o) noexcept : v(o.v), m(77) { te_bad += o.m != 77; te_live++; }
    te& operator=(te const& o) { te_bad += o.m != 77 || m != 77; v = o.v; return *this; } te& operator=(te&& o) noexcept { te_bad += o.m != 77 || m != 77; v = o.v; return *this; } ~te() { te_bad += m != 77; m = 0; te_live--; } };
static bool tlt(te const& a, te const& b) { return a.v < b.v; }
extern "C" void elements() {
    init_tick(9); te_live = te_bad = 0; long cut = 1 + sym_choice("cut", 2); { std::vector<te> v; v.reserve(4); for (int i = 4; i--;) v.emplace_back(i * 3 % 4); auto p = order_pool(1);
    switch (sym_choice("overload", 10)) {
        OV(0, ba::parallel_sort(v.begin(), v.end(), tlt, cut)) OV(1, ba::parallel_stable_sort(v.begin(), v.end(), tlt, cut)) OV(2, ba::parallel_sort(std::move(v), tlt, cut)) OV(3, ba::parallel_stable_sort(std::move(v), tlt, cut)) OV(4, ba::parallel_sort(csrc(std::move(v)), tlt, cut)) OV(5, ba::parallel_stable_sort(csrc(std::move(v)), tlt, cut))
        OV(6, ba::parallel_sort2(std::move(v), tlt, cut)) OV(7, ba::parallel_stable_sort2(std::move(v), tlt, cut)) OV(8, ba::parallel_sort_inplace(v.begin(), v.end(), tlt, cut)) OV(9, ba::parallel_stable_sort_inplace(v.begin(), v.end(), tlt, cut))
    } } CHECK(te_bad == 0, "an element was used outside its lifetime"); CHECK(te_live == 0, "elements constructed and destroyed do not match"); asym_reach("end");
}
