//@ nth | parallel_nth_element: every position incl. end | length 0..4 (thorough 0..6), symbolic keys (0..2 for 5 and more), cutoff 1..3, threads 1..2
//@ partial | parallel_partial_sort: every middle | length 0..4 (thorough 5), symbolic keys, cutoff 1..3, threads 1..2
//@ big | parallel_nth_element and parallel_partial_sort on longer ranges | length 6 (thorough 6..8), keys 0..1, cutoff 1..2 (3), threads 1..2 (3)
#include "sortcommon.h"
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
typedef std::vector<kv> V;
static void perm_ok(V const& r, V const& o) { int n = o.size(); bool seen[16] = {}, perm = true; for (int i = 0; i < n; i++) { int id = asym_conc(r[i].id); CHECK(id >= 0 && id < n, "selection: foreign element"); perm &= !seen[id]; seen[id] = true; perm &= r[i].key == o[id].key; } CHECK(perm, "selection: not a permutation"); }
static void nth_ok(V const& r, int k) { bool ok = true; if (k < (int)r.size()) { for (int i = 0; i < k; i++) ok &= r[i].key <= r[k].key; for (int i = k + 1; i < (int)r.size(); i++) ok &= r[i].key >= r[k].key; } CHECK(ok, "parallel_nth_element: the n-th element is not in place"); }
static void part_ok(V const& r, int m) { bool ok = true; for (int i = 1; i < m; i++) ok &= r[i - 1].key <= r[i].key; CHECK(ok, "parallel_partial_sort: front not sorted"); ok = true; if (m) for (int i = m; i < (int)r.size(); i++) ok &= r[i].key >= r[m - 1].key; CHECK(ok, "parallel_partial_sort: a smaller element is behind the middle"); }
template<class F> static void run(V& v, bool nth, int k, long cut, unsigned th, pool_t& p, F f) {
    V a; a.push_back(kv{7, 98}); a.insert(a.end(), v.begin(), v.end()); a.push_back(kv{-7, 99});
    if (nth) in_pool(p, [&] { return ba::parallel_nth_element(a.begin() + 1, a.begin() + 1 + k, a.end() - 1, f, cut, th); }); else in_pool(p, [&] { return ba::parallel_partial_sort(a.begin() + 1, a.begin() + 1 + k, a.end() - 1, f, cut, th); });
    CHECK(a.front().id == 98 && a.back().id == 99, "selection: wrote outside the range"); v.assign(a.begin() + 1, a.end() - 1);
}
extern "C" void nth() {
    shape s = sym_shape(4 + 2 * TIER, 3); int k = sym_choice("nth", s.n + 1); unsigned th = 1 + sym_choice("threads", 2); V v = kv_vec(s.n, 0, s.n > 4 ? 2 : 0), o = v; auto p = order_pool(0);
    run(v, true, k, s.cut, th, p, lt); perm_ok(v, o); nth_ok(v, k); asym_reach("end");
}
extern "C" void partial() {
    shape s = sym_shape(4 + TIER, 3); int k = sym_choice("middle", s.n + 1); unsigned th = 1 + sym_choice("threads", 2); V v = kv_vec(s.n, 0, s.n > 4 ? 2 : 0), o = v; auto p = order_pool(0);
    run(v, false, k, s.cut, th, p, lt); perm_ok(v, o); part_ok(v, k); asym_reach("end");
}
extern "C" void big() {
    int n = 6 + sym_choice("n", 1 + 2 * TIER); int k = sym_choice("k", n + 1); long cut = 1 + sym_choice("cut", 2 + TIER); unsigned th = 1 + sym_choice("threads", 2 + TIER); bool nth = sym_flip("which"); V v = kv_vec(n, 0, 1), o = v; auto p = order_pool(0);
    run(v, nth, k, cut, th, p, lt); perm_ok(v, o); if (nth) nth_ok(v, k); else part_ok(v, k); asym_reach("end");
}
