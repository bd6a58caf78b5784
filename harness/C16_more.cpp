//@ count | parallel_count and parallel_count_if: iterators, const range, moved range, continuations | length 0..6, symbolic values, cutoff 1..4, 1 departure
//@ quantifiers | parallel_all_of / any_of / none_of: iterators and continuation | length 0..6, symbolic values, cutoff 1..3, 1 departure
//@ inner | parallel_inner_product: iterators, ranges, with and without initial value, ordered concatenation | length 0..6, cutoff 1..3, 1 departure
//@ inner_cont | parallel_inner_product over two continuations | length 1..5, cutoff 1..3, 1 departure
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
extern "C" void count() {
    shape s = sym_shape(6 + TIER * 2, 4); auto v = sym_vec(s.n), o = v; int var = sym_choice("overload", 7); int x = sym_i32("x"); long r = -1; auto p = order_pool(1);
    auto pr = [](int const& a) { return a > 10; };
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_count(v.begin(), v.end(), x, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_count(std::move(v), x, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_count(cb_source(v), x, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_count_if(v.begin(), v.end(), pr, s.cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_count_if(const_cast<std::vector<int> const&>(v), pr, s.cut); }); break;
        case 5: r = in_pool(p, [&] { return ba::parallel_count_if(std::move(v), pr, s.cut); }); break;
        case 6: r = in_pool(p, [&] { return ba::parallel_count_if(cb_source(v), pr, s.cut); }); break;
    }
    long w = 0; for (int a : o) w += var < 3 ? a == x : a > 10;
    CHECK(r == w, "parallel_count is not the number of matching elements"); asym_out("r", r); asym_reach("end");
}
extern "C" void quantifiers() {
    shape s = sym_shape(6 + TIER * 2, 3); auto v = sym_vec(s.n), o = v; int var = sym_choice("overload", 6); bool r = false; auto p = order_pool(1);
    auto pr = [](int const& a) { return a > 10; };
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_all_of(v.begin(), v.end(), pr, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_any_of(v.begin(), v.end(), pr, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_none_of(v.begin(), v.end(), pr, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_all_of(cb_source(v), pr, s.cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_any_of(cb_source(v), pr, s.cut); }); break;
        case 5: r = in_pool(p, [&] { return ba::parallel_none_of(cb_source(v), pr, s.cut); }); break;
    }
    bool all = true, any = false; for (int a : o) { all &= a > 10; any |= a > 10; }
    CHECK(r == (var % 3 == 0 ? all : var % 3 == 1 ? any : !any), "all_of/any_of/none_of: wrong answer"); asym_out("r", r); asym_reach("end");
}
static seq pair_op(int const& a, int const& b) { seq s; s.n = 1; s.a[0] = a * 16 + b; return s; }
static bool pairs(seq const& r, int n, int init) { int o = init ? 1 : 0; if (r.n != n + o) return false; bool ok = !init || r.a[0] == 999; for (int i = 0; i < n; i++) ok &= r.a[o + i] == i * 16 + (n - i); return ok; }
extern "C" void inner() {
    shape s = sym_shape(6 + TIER * 2, 3); std::vector<int> a, b; for (int i = 0; i < s.n; i++) { a.push_back(i); b.push_back(s.n - i); }
    int var = sym_choice("overload", 4); seq r; auto p = order_pool(1); auto cat = [](seq const& x, seq const& y) { return x + y; }; seq init(999);
    switch (var) {
        case 0: r = in_pool(p, [&] { return ba::parallel_inner_product(a.begin(), a.end(), b.begin(), pair_op, cat, s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_inner_product(a.begin(), a.end(), b.begin(), pair_op, cat, init, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_inner_product(std::move(a), std::move(b), pair_op, cat, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_inner_product(std::move(a), std::move(b), pair_op, cat, init, s.cut); }); break;
    }
    CHECK(pairs(r, s.n, var & 1), "parallel_inner_product: wrong operands or order"); asym_out("n", r.n); asym_reach("end");
}
extern "C" void inner_cont() {
    int n = 1 + sym_choice("n", 5); long cut = 1 + sym_choice("cut", 3); std::vector<int> a, b; for (int i = 0; i < n; i++) { a.push_back(i); b.push_back(n - i); }
    int var = sym_choice("overload", 2); seq r; auto p = order_pool(1); auto cat = [](seq const& x, seq const& y) { return x + y; }; seq init(999);
    if (var) r = in_pool(p, [&] { return ba::parallel_inner_product(cb_source(a), cb_source(b), pair_op, cat, init, cut); });
    else r = in_pool(p, [&] { return ba::parallel_inner_product(cb_source(a), cb_source(b), pair_op, cat, cut); });
    CHECK(pairs(r, n, var), "parallel_inner_product: wrong operands or order"); asym_out("n", r.n); asym_reach("end");
}
