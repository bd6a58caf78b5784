//@ partition | parallel_partition: iterators, moved range, continuation | length 0..6, every pattern, threads 1..3, 1 departure
//@ stable_it | parallel_stable_partition into an output range | length 0..6, every pattern, cutoff 1..3, 1 departure
//@ stable_range | parallel_stable_partition of a moved range and a continuation | length 0..5, every pattern, cutoff 1..3, 1 departure
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
auto pr = [](el const& e) { return asym_conc(e.v > 0) != 0; };
template<class R> void verify(R b, R e, R mid, std::vector<el> const& o, bool stable, const char* what) {
    int n = o.size(); CHECK(e - b == n, what); bool seen[16] = {}; bool perm = true, part = true, st = true; int last = -1;
    for (int i = 0; i < n; i++) { int id = b[i].id; CHECK(id >= 0 && id < n, what); id = asym_conc(id); perm &= !seen[id]; seen[id] = true; perm &= b[i].v == o[id].v; part &= pr(b[i]) == (b + i < mid); if (b + i == mid) last = -1; st &= id > last; last = id; }
    CHECK(perm, "partition: not a permutation"); CHECK(part, "partition: boundary does not separate by the predicate"); CHECK(mid >= b && mid <= e, "partition: boundary outside the range"); if (stable) CHECK(st, "stable partition: order changed");
}
extern "C" void partition() {
    int n = sym_choice("n", 7 + TIER); auto v = el_vec(n), o = v; unsigned th = 1 + sym_choice("threads", 3); auto p = order_pool(1);
    switch (sym_choice("overload", 3)) {
        case 0: { guarded<el> *g = nullptr; std::vector<el> a = v; a.insert(a.begin(), el()); a.push_back(el()); auto m = in_pool(p, [&] { return ba::parallel_partition(a.begin() + 1, a.end() - 1, pr, th); }); verify(a.begin() + 1, a.end() - 1, m, o, false, "partition: length"); CHECK(a.front().id == -1 && a.back().id == -1, "partition: outside"); break; }
        case 1: { auto r = in_pool(p, [&] { return ba::parallel_partition(std::move(v), pr, th); }); verify(r.first.begin(), r.first.end(), r.second, o, false, "partition: length"); break; }
        case 2: { auto r = in_pool(p, [&] { return ba::parallel_partition(cb_source(v), pr, th); }); verify(r.first.begin(), r.first.end(), r.second, o, false, "partition: length"); break; }
    }
    asym_reach("end");
}
extern "C" void stable_it() {
    shape s = sym_shape(6 + TIER, 3); auto v = el_vec(s.n), o = v; std::vector<el> out(s.n + 2); auto p = order_pool(1);
    auto m = in_pool(p, [&] { return ba::parallel_stable_partition(v.begin(), v.end(), out.begin() + 1, pr, s.cut); });
    verify(out.begin() + 1, out.end() - 1, m, o, true, "stable partition: length"); CHECK(out.front().id == -1 && out.back().id == -1, "stable partition: outside"); asym_reach("end");
}
extern "C" void stable_range() {
    shape s = sym_shape(5 + TIER, 3); auto v = el_vec(s.n), o = v; auto p = order_pool(1);
    switch (sym_choice("overload", 2)) {
        case 0: { auto r = in_pool(p, [&] { return ba::parallel_stable_partition(std::move(v), pr, s.cut); }); verify(r.first.begin(), r.first.end(), r.second, o, true, "stable partition: length"); break; }
        case 1: { auto r = in_pool(p, [&] { return ba::parallel_stable_partition(cb_source(v), pr, s.cut); }); verify(r.first.begin(), r.first.end(), r.second, o, true, "stable partition: length"); break; }
    }
    asym_reach("end");
}
