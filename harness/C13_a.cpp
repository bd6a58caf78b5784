//@ for_ | parallel_for / for_each / generate, functor throws: every overload | 4 elements, every throwing subset, failing source, both exception kinds, cutoff 1..2, 1 departure
//@ transform | parallel_transform (1 and 2 sources), grouped_transform, grouped_for | 4 elements, every throwing subset, cutoff 1..2, 1 departure
//@ copies | copy_if, replace(_copy)_if, remove_copy_if, partition_copy, copy/move with throwing assignment | 4 elements, every throwing subset, failing source, cutoff 1..2, 1 departure
//@ reduces | parallel_reduce, extremum, count_if, all/any/none_of, inner_product, scans | 4 elements, every throwing subset or call, failing source, cutoff 1..2, 1 departure
#include "throwcommon.h"
#include <list>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
static const int N = 4;
struct acc { int n = 0; void operator()(int const& a) { hit(a); n++; } void merge(acc const& o) { n += o.n; } };
extern "C" void for_() asm("for_"); extern "C" void for_() {
    init_throw(N); long cut = 1 + sym_choice("cut", 2); auto v = ids(N); std::list<int> l(v.begin(), v.end()); auto p = order_pool(1);
    auto f = [](int const& a) { hit(a); }; auto g = []() -> int { hit(callno++ % N); return 1; };
    switch (sym_choice("overload", 13)) {
        OV(0, ba::parallel_for(v.begin(), v.end(), f, cut)) OV(1, ba::parallel_for(0, N, f, cut)) OV(2, ba::parallel_for(l.begin(), l.end(), f, cut)) OV(3, ba::parallel_for(std::move(v), f, cut)) OV(4, ba::parallel_for(const_cast<std::vector<int> const&>(v), f, cut))
        OV(5, ba::parallel_for(csrc(v), f, cut)) OV(6, ba::parallel_for(fsrc(v), f, cut)) OV(7, ba::parallel_for(ba::parallel_for(std::move(v), f, cut), [](int const&) {}, cut)) OV(8, ba::parallel_for_each(v.begin(), v.end(), acc(), cut))
        OV(9, ba::parallel_generate(v.begin(), v.end(), g, cut)) OV(10, ba::parallel_generate(std::move(v), g, cut)) OV(11, ba::parallel_generate(csrc(v), g, cut)) OV(12, ba::parallel_generate(fsrc(v), g, cut))
    } asym_reach("end");
}
extern "C" void transform() {
    init_throw(N); long cut = 1 + sym_choice("cut", 2); auto v = ids(N), w = ids(N); std::vector<int> out(N); auto p = order_pool(1); typedef std::vector<int>::iterator I;
    auto f = [](int const& a) { hit(a); return a; }; auto f2 = [](int const& a, int const&) { hit(a); return a; }; auto c = [](int const& a, int const& b) { return a < b; }; auto ff = [](int& a) { hit(a); }; auto fb = [](I b, I e) { for (; b != e; ++b) hit(*b); }; auto ft = [](I b, I e, I o) { for (; b != e; ++b) { hit(*b); *o++ = *b; } };
    switch (sym_choice("overload", 12)) {
        OV(0, ba::parallel_transform(v.begin(), v.end(), out.begin(), f, cut)) OV(1, ba::parallel_transform(v, out.begin(), f, cut)) OV(2, ba::parallel_transform(v.begin(), v.end(), w.begin(), out.begin(), f2, cut)) OV(3, ba::parallel_transform(v, w, out.begin(), f2, cut))
        OV(4, ba::parallel_grouped_for(v.begin(), v.end(), c, ff, cut)) OV(5, ba::parallel_grouped_for(v, c, fb, cut)) OV(6, ba::parallel_grouped_for(std::move(v), c, fb, cut)) OV(7, ba::parallel_grouped_for(csrc(v), c, ff, cut))
        OV(8, ba::parallel_grouped_transform(v.begin(), v.end(), out.begin(), c, f, cut)) OV(9, ba::parallel_grouped_transform(v, out.begin(), c, ft, cut)) OV(10, ba::parallel_grouped_transform<std::vector<int>>(std::move(v), c, ft, cut)) OV(11, ba::parallel_grouped_transform<std::vector<int>>(csrc(v), c, f, cut))
    } asym_reach("end");
}
extern "C" void copies() {
    init_throw(N); long cut = 1 + sym_choice("cut", 2); auto v = ids(N); std::vector<int> out(N), o2(N); auto p = order_pool(1); auto pr = [](int const& a) { hit(a); return (a & 1) == 0; };
    std::vector<ta> tv, to(N); for (int i = 0; i < N; i++) tv.emplace_back(i);
    switch (sym_choice("overload", 15)) {
        OV(0, ba::parallel_copy_if(v.begin(), v.end(), out.begin(), pr, cut)) OV(1, ba::parallel_replace_if(v.begin(), v.end(), pr, 9, cut)) OV(2, ba::parallel_replace_if(std::move(v), pr, 9, cut)) OV(3, ba::parallel_replace_if(csrc(v), pr, 9, cut)) OV(4, ba::parallel_replace_if(fsrc(v), pr, 9, cut))
        OV(5, ba::parallel_replace_copy_if(v.begin(), v.end(), out.begin(), pr, 9, cut)) OV(6, ba::parallel_replace_copy_if(csrc(v), out.begin(), pr, 9, cut)) OV(7, ba::parallel_remove_copy_if(v.begin(), v.end(), out.begin(), pr, cut)) OV(8, ba::parallel_partition_copy(v.begin(), v.end(), out.begin(), o2.begin(), pr, cut))
        OV(9, ba::parallel_copy(tv.begin(), tv.end(), to.begin(), cut)) OV(10, ba::parallel_copy(std::move(tv), to.begin(), cut)) OV(11, ba::parallel_move(tv.begin(), tv.end(), to.begin(), cut)) OV(12, ba::parallel_move(std::move(tv), to.begin(), cut)) OV(13, ba::parallel_copy(csrc(tv), to.begin(), cut)) OV(14, ba::parallel_move(csrc(tv), to.begin(), cut))
    } asym_reach("end");
}
extern "C" void reduces() {
    init_throw(N); long cut = 1 + sym_choice("cut", 2); auto v = ids(N), w = ids(N); std::vector<int> out(N); auto p = order_pool(1); auto pr = [](int const& a) { hit(a); return false; }; auto pt = [](int const& a) { hit(a); return true; };
    auto add = [](int const& a, int const& b) { hit(b & 3); return a + b; }; auto lt = [](int const& a, int const& b) { hit(a & 3); return a < b; }; auto mul = [](int const& a, int const&) { hit(a); return a; }; auto pl = [](int const& a, int const& b) { return a + b; };
    switch (sym_choice("overload", 22)) {
        OV(0, ba::parallel_reduce(v.begin(), v.end(), add, cut)) OV(1, ba::parallel_reduce(std::move(v), add, cut)) OV(2, ba::parallel_reduce(const_cast<std::vector<int> const&>(v), add, cut)) OV(3, ba::parallel_reduce(csrc(v), add, cut)) OV(4, ba::parallel_reduce(fsrc(v), add, cut))
        OV(5, ba::parallel_extremum(v.begin(), v.end(), lt, cut)) OV(6, ba::parallel_extremum(std::move(v), lt, cut)) OV(7, ba::parallel_extremum(csrc(v), lt, cut)) OV(8, ba::parallel_count_if(v.begin(), v.end(), pr, cut)) OV(9, ba::parallel_count_if(std::move(v), pr, cut)) OV(10, ba::parallel_count_if(csrc(v), pr, cut))
        OV(11, ba::parallel_all_of(v.begin(), v.end(), pt, cut)) OV(12, ba::parallel_any_of(v.begin(), v.end(), pr, cut)) OV(13, ba::parallel_none_of(v.begin(), v.end(), pr, cut)) OV(14, ba::parallel_all_of(csrc(v), pt, cut)) OV(15, ba::parallel_any_of(csrc(v), pr, cut)) OV(16, ba::parallel_none_of(csrc(v), pr, cut))
        OV(17, ba::parallel_inner_product(v.begin(), v.end(), w.begin(), mul, pl, 0, cut)) OV(18, ba::parallel_inner_product(std::move(v), std::move(w), mul, pl, cut)) OV(19, ba::parallel_inner_product(csrc(v), csrc(w), mul, pl, cut))
        OV(20, ba::parallel_inclusive_scan(v.begin(), v.end(), out.begin(), 0, add, cut)) OV(21, ba::parallel_exclusive_scan(std::move(v), std::move(out), 0, add, cut))
    } asym_reach("end");
}
