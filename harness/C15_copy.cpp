//@ copy | parallel_copy: iterators, moved range, continuation | length 0..6, symbolic values, cutoff 1..4, 1 departure
//@ copy_if | parallel_copy_if, parallel_remove_copy, parallel_remove_copy_if: contents, end, nothing else written | length 0..5, every selection pattern, cutoff 1..3, 1 departure
//@ move | parallel_move: iterators, moved range, continuation; move-only elements | length 0..6, cutoff 1..4, 1 departure
#include "common.h"
#include <memory>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
extern "C" void copy() {
    shape s = sym_shape(6, 4); auto v = sym_vec(s.n), o = v; guarded<int> out(std::vector<int>(s.n, 0), 77, 78); auto p = order_pool(1); std::vector<int> r;
    switch (sym_choice("overload", 4)) {
        case 0: in_pool(p, [&] { return ba::parallel_copy(v.begin(), v.end(), out.begin(), s.cut); }); r = v; break;
        case 1: r = in_pool(p, [&] { return ba::parallel_copy(std::move(v), out.begin(), s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_copy(cb_source(v), out.begin(), s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_copy(fu_source(v), out.begin(), s.cut); }); break;
    }
    CHECK(same(std::vector<int>(out.begin(), out.end()), o) & out.intact(), "parallel_copy: output is not the input"); CHECK(same(r, o), "parallel_copy: the source range changed"); asym_reach("end");
}
extern "C" void copy_if() {
    shape s = sym_shape(5 + TIER, 3); auto v = sym_vec(s.n), o = v; guarded<int> out(std::vector<int>(s.n, -7), 77, 78); auto p = order_pool(1); std::vector<int>::iterator r; int x = sym_i32("x"); auto pr = [](int const& a) { return a < 0; };
    int var = sym_choice("overload", 3);
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_copy_if(v.begin(), v.end(), out.begin(), pr, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_remove_copy_if(v.begin(), v.end(), out.begin(), pr, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_remove_copy(v.begin(), v.end(), out.begin(), x, s.cut); }); break;
    }
    std::vector<int> w; for (int e : o) if (var == 0 ? e < 0 : var == 1 ? !(e < 0) : e != x) w.push_back(e);
    int k = w.size(); bool ok = true; for (int i = 0; i < k; i++) ok &= out.begin()[i] == w[i]; CHECK(ok, "parallel_copy_if: wrong elements or order"); CHECK(r - out.begin() == k, "parallel_copy_if: wrong end");
    ok = out.intact() & same(v, o); for (int i = k; i < s.n; i++) ok &= out.begin()[i] == -7; CHECK(ok, "parallel_copy_if: wrote something else"); asym_reach("end");
}
struct mo { int v; mo(int x = 0) : v(x) {} mo(mo&& o) noexcept : v(o.v) { o.v = -1; } mo& operator=(mo&& o) noexcept { v = o.v; o.v = -1; return *this; } };
extern "C" void move() {
    shape s = sym_shape(6, 4); std::vector<int> o = sym_vec(s.n, 0, 1000); std::vector<mo> v, out(s.n + 2); for (int x : o) v.emplace_back(x); out[0].v = 77; out[s.n + 1].v = 78; auto p = order_pool(1);
    switch (sym_choice("overload", 2)) {
        case 0: { in_pool(p, [&] { return ba::parallel_move(v.begin(), v.end(), out.begin() + 1, s.cut); }); for (auto& e : v) CHECK(e.v == -1, "parallel_move: source element not moved from"); break; }
        case 1: { auto r = in_pool(p, [&] { return ba::parallel_move(std::move(v), out.begin() + 1, s.cut); }); CHECK(r.size() == (size_t)s.n, "parallel_move: returned range"); break; }
    }
    bool ok = out[0].v == 77 && out[s.n + 1].v == 78; for (int i = 0; i < s.n; i++) ok &= out[i + 1].v == o[i]; CHECK(ok, "parallel_move: output is not the input"); asym_reach("end");
}
