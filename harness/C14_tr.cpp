//@ tr1 | parallel_transform with one input: iterators, range reference, variadic iterators, variadic ranges | length 0..6, symbolic values, cutoff 1..4, 1 departure
//@ tr2 | parallel_transform with two inputs: iterators, ranges, and with three inputs (variadic) | length 0..6, cutoff 1..4, 1 departure
//@ swap_ranges | parallel_swap_ranges exchanges exactly the two ranges and returns the second end | length 0..6, cutoff 1..4, 2 departures
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
typedef std::vector<int>::iterator it_t;
extern "C" void tr1() {
    shape s = sym_shape(6, 4); auto v = sym_vec(s.n), o = v; guarded<int> out(std::vector<int>(s.n, 0), 77, 78); auto p = order_pool(1); int var = sym_choice("overload", 4); it_t r;
    int cnt = 0; auto f = [&cnt](int const& x) { cnt++; return x * 3 + 1; };
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_transform(v.begin(), v.end(), out.begin(), f, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_transform(v, out.begin(), f, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_transform<it_t, decltype(f), ba::any_callable, it_t>(out.begin(), f, v.begin(), v.end(), s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_transform<it_t, decltype(f), ba::any_callable, std::vector<int>>(out.begin(), f, v, s.cut); }); break;
    }
    bool ok = true; for (int i = 0; i < s.n; i++) ok &= out.begin()[i] == o[i] * 3 + 1;
    CHECK(ok, "parallel_transform: wrong element"); CHECK(r == out.end(), "parallel_transform: wrong end iterator"); CHECK(out.intact(), "parallel_transform wrote outside its output"); CHECK(same(v, o), "parallel_transform changed its input"); CHECK(cnt == s.n, "parallel_transform: functor calls"); asym_reach("end");
}
extern "C" void tr2() {
    shape s = sym_shape(6, 4); auto v = sym_vec(s.n), w = sym_vec(s.n, "w"), u = sym_vec(s.n, "u"); guarded<int> out(std::vector<int>(s.n, 0), 77, 78); auto p = order_pool(1); int var = sym_choice("overload", 6); it_t r;
    int cnt = 0; auto f = [&cnt](int const& x, int const& y) { cnt++; return x * 3 + y; }; auto f3 = [&cnt](int const& x, int const& y, int const& z) { cnt++; return x * 3 + y + z * 5; };
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_transform(v.begin(), v.end(), w.begin(), out.begin(), f, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_transform(v, w, out.begin(), f, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_transform<it_t, decltype(f), ba::any_callable, it_t, it_t>(out.begin(), f, v.begin(), v.end(), w.begin(), s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_transform<it_t, decltype(f), ba::any_callable, std::vector<int>, std::vector<int>>(out.begin(), f, v, w, s.cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_transform<it_t, decltype(f3), ba::any_callable, it_t, it_t, it_t>(out.begin(), f3, v.begin(), v.end(), w.begin(), u.begin(), s.cut); }); break;
        case 5: r = in_pool(p, [&] { return ba::parallel_transform<it_t, decltype(f3), ba::any_callable, std::vector<int>, std::vector<int>, std::vector<int>>(out.begin(), f3, v, w, u, s.cut); }); break;
    }
    bool ok = true; for (int i = 0; i < s.n; i++) ok &= out.begin()[i] == v[i] * 3 + w[i] + (var >= 4 ? u[i] * 5 : 0);
    CHECK(ok, "parallel_transform: wrong element"); CHECK(r == out.end(), "parallel_transform: wrong end iterator"); CHECK(out.intact(), "parallel_transform wrote outside its output"); CHECK(cnt == s.n, "parallel_transform: functor calls"); asym_reach("end");
}
extern "C" void swap_ranges() {
    shape s = sym_shape(6, 4); auto v = sym_vec(s.n), w = sym_vec(s.n, "w"); guarded<int> a(v, 1, 2), b(w, 3, 4); auto p = order_pool(2);
    auto r = in_pool(p, [&] { return ba::parallel_swap_ranges(a.begin(), a.end(), b.begin(), s.cut); });
    bool ok = true; for (int i = 0; i < s.n; i++) ok &= (a.begin()[i] == w[i]) & (b.begin()[i] == v[i]);
    CHECK(ok, "parallel_swap_ranges: wrong element"); CHECK(r == b.end(), "parallel_swap_ranges: wrong end"); CHECK(a.intact() & b.intact(), "parallel_swap_ranges: outside"); asym_reach("end");
}
