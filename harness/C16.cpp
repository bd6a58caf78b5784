//@ reduce_it | parallel_reduce over iterators, one functor, non-commutative associative operation and symbolic sums | length 0..8, cutoff 1..4, up to 2 departures from FIFO chunk order
//@ reduce_range | parallel_reduce over const range / moved range / iterators with an iterator functor | length 0..6, cutoff 1..4, 1 departure
//@ reduce_cont | parallel_reduce over callback and future continuations | length 0..6, cutoff 1..3, 1 departure
//@ extremum | parallel_extremum: iterators, const range, moved range, continuation; both comparisons | length 1..5, symbolic 32-bit elements, cutoff 1..3
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
auto cat = [](seq const& a, seq const& b) { return a + b; };
auto add = [](int const& a, int const& b) { return a + b; };
extern "C" void reduce_it() {
    shape s = sym_shape(8 + TIER * 3, 4); auto v = seq_vec(s.n);
    auto r = run_alg(2, [&] { return ba::parallel_reduce(v.begin(), v.end(), cat, s.cut); });
    CHECK(is_iota(r, s.n), "parallel_reduce(iterators) is not the fold of all elements in order");
    asym_out("n", r.n); asym_reach("end");
}
extern "C" void reduce_range() {
    shape s = sym_shape(6 + TIER * 3, 4); auto v = seq_vec(s.n); int var = sym_choice("overload", 6); seq r;
    auto p = order_pool(1);
    auto fold = [](auto b, auto e) { seq t; for (; b != e; ++b) t = t + *b; return t; };
    auto foldi = [](std::vector<seq>::iterator b, std::vector<seq>::iterator e) { seq t; for (; b != e; ++b) t = t + *b; return t; };
    auto foldc = [](std::vector<seq>::const_iterator b, std::vector<seq>::const_iterator e) { seq t; for (; b != e; ++b) t = t + *b; return t; };
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_reduce(const_cast<std::vector<seq> const&>(v), cat, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_reduce(std::move(v), cat, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_reduce(v.begin(), v.end(), foldi, cat, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_reduce(const_cast<std::vector<seq> const&>(v), foldc, cat, s.cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_reduce(std::move(v), foldi, cat, s.cut); }); break;
        case 5: { auto w = sym_vec(s.n); int sum = 0; for (int x : w) sum += x; int q = in_pool(p, [&] { return ba::parallel_reduce(std::move(w), add, s.cut); }); CHECK(q == sum, "sum"); asym_out("q", q); asym_reach("end"); return; }
    }
    CHECK(is_iota(r, s.n), "parallel_reduce(range) is not the fold of all elements in order");
    asym_out("n", r.n); asym_reach("end");
}
extern "C" void reduce_cont() {
    shape s = sym_shape(6, 3); auto v = seq_vec(s.n); int var = sym_choice("overload", 3); seq r;
    auto p = order_pool(1);
    auto foldi = [](std::vector<seq>::iterator b, std::vector<seq>::iterator e) { seq t; for (; b != e; ++b) t = t + *b; return t; };
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_reduce(cb_source(v), cat, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_reduce(fu_source(v), cat, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_reduce(cb_source(v), foldi, cat, s.cut); }); break;
    }
    CHECK(is_iota(r, s.n), "parallel_reduce(continuation) is not the fold of all elements in order");
    asym_out("n", r.n); asym_reach("end");
}
extern "C" void extremum() {
    int n = 1 + sym_choice("n", 4 + TIER); long cut = 1 + sym_choice("cut", 3); auto v = sym_vec(n); int var = sym_choice("overload", 5), r = 0; auto w = v;
    auto p = order_pool(1); auto lt = [](int a, int b) { return a < b; }; auto gt = [](int a, int b) { return a > b; };
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_extremum(v.begin(), v.end(), lt, cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_extremum(const_cast<std::vector<int> const&>(v), lt, cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_extremum(std::move(v), lt, cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_extremum(cb_source(v), lt, cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_extremum(v.begin(), v.end(), gt, cut); }); break;
    }
    bool in = false, ext = true; for (int x : w) { in |= x == r; ext &= var == 4 ? r >= x : r <= x; }
    CHECK(in & ext, "parallel_extremum is not the extremum of the range"); asym_out("r", r); asym_reach("end");
}
