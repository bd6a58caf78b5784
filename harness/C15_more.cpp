//@ move_cont | parallel_move over a continuation | length 0..5, cutoff 1..3, 1 departure
//@ replace_copy | parallel_replace_copy(_if): iterators and continuations | length 0..5, symbolic values, cutoff 1..3, 1 departure
//@ partition_copy | parallel_partition_copy: contents, order, both ends | length 0..5, every pattern, cutoff 1..3, 1 departure
//@ unique | parallel_unique: iterators and continuation | length 0..5, symbolic values 0..3, cutoff 1..3, 1 departure
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
extern "C" void move_cont() {
    shape s = sym_shape(5, 3); auto v = sym_vec(s.n), o = v; guarded<int> out(std::vector<int>(s.n, 0), 77, 78); auto p = order_pool(1); size_t r;
    if (sym_flip("overload")) r = in_pool(p, [&] { return ba::parallel_move(cb_source(v), out.begin(), s.cut); }).size(); else r = in_pool(p, [&] { return ba::parallel_move(cb_source(v), out.begin(), s.cut); }).size();
    CHECK(same(std::vector<int>(out.begin(), out.end()), o) & out.intact() & (r == o.size()), "parallel_move: output is not the input"); asym_reach("end");
}
extern "C" void replace_copy() {
    shape s = sym_shape(5, 3); auto v = sym_vec(s.n), o = v; guarded<int> out(std::vector<int>(s.n, 0), 77, 78); auto p = order_pool(1); int x = sym_i32("old"), y = sym_i32("new"); auto pr = [](int const& a) { return a < 0; };
    int var = sym_choice("overload", 4); std::vector<int>::iterator r;
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_replace_copy(v.begin(), v.end(), out.begin(), x, y, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_replace_copy(cb_source(v), out.begin(), x, y, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_replace_copy_if(v.begin(), v.end(), out.begin(), pr, y, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_replace_copy_if(cb_source(v), out.begin(), pr, y, s.cut); }); break;
    }
    bool ok = true; for (int i = 0; i < s.n; i++) ok &= out.begin()[i] == ((var >= 2 ? o[i] < 0 : o[i] == x) ? y : o[i]);
    CHECK(ok, "parallel_replace_copy: wrong contents"); CHECK(r == out.end(), "parallel_replace_copy: wrong end"); CHECK(out.intact() & same(v, o), "parallel_replace_copy: wrote something else"); asym_reach("end");
}
extern "C" void partition_copy() {
    shape s = sym_shape(5 + TIER, 3); auto v = sym_vec(s.n), o = v; guarded<int> t(std::vector<int>(s.n, -7), 77, 78), f(std::vector<int>(s.n, -7), 79, 80); auto p = order_pool(1);
    auto r = in_pool(p, [&] { return ba::parallel_partition_copy(v.begin(), v.end(), t.begin(), f.begin(), [](int const& a) { return asym_conc(a > 0) != 0; }, s.cut); });
    std::vector<int> wt, wf; for (int e : o) (e > 0 ? wt : wf).push_back(e);
    bool ok = true; for (size_t i = 0; i < wt.size(); i++) ok &= t.begin()[i] == wt[i]; for (size_t i = 0; i < wf.size(); i++) ok &= f.begin()[i] == wf[i]; CHECK(ok, "parallel_partition_copy: wrong elements");
    CHECK(r.first - t.begin() == (long)wt.size() && r.second - f.begin() == (long)wf.size(), "parallel_partition_copy: wrong ends");
    ok = t.intact() & f.intact() & same(v, o); for (int i = wt.size(); i < s.n; i++) ok &= t.begin()[i] == -7; for (int i = wf.size(); i < s.n; i++) ok &= f.begin()[i] == -7; CHECK(ok, "parallel_partition_copy: wrote something else"); asym_reach("end");
}
extern "C" void unique() {
    shape s = sym_shape(5 + TIER, 3); auto v = sym_vec(s.n), o = v; o.erase(std::unique(o.begin(), o.end()), o.end()); auto p = order_pool(1); std::vector<int> r; auto eq = [](int const& a, int const& b) { return a == b; };
    switch (sym_choice("overload", 2)) {
        case 0: { guarded<int> g(v, 77, 78); auto e = in_pool(p, [&] { return ba::parallel_unique(g.begin(), g.end(), eq, s.cut); }); CHECK(g.intact(), "parallel_unique: outside"); r.assign(g.begin(), e); break; }
        case 1: r = in_pool(p, [&] { return ba::parallel_unique(cb_source(v), eq, s.cut); }); break;
    }
    CHECK(same(r, o), "parallel_unique: not the sequential result"); asym_reach("end");
}
