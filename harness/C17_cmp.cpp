//@ mismatch | parallel_mismatch: with/without functor | length 0..6, symbolic values, cutoff 1..3, 1 departure
//@ equal | parallel_equal: with/without functor | length 0..6, symbolic values, cutoff 1..3, 1 departure
//@ lexi | parallel_lexicographical_compare: with/without functor | lengths 0..4 x 0..4, symbolic values, cutoff 1..3, 1 departure
//@ sorted | parallel_is_sorted and parallel_is_reverse_sorted | length 0..6, symbolic values, cutoff 1..4, 1 departure
//@ partitioned | parallel_is_partitioned | length 0..7, every pattern, cutoff 1..4, 1 departure
//@ kmp | parallel_kmp: iterators, ranges, moved ranges, continuations | haystack 0..6, needle 0..3, symbolic values, cutoff 1..3
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include <boost/asynchronous/algorithm/parallel_kmp.hpp>
auto eqf = [](int const& a, int const& b) { return a == b; };
auto ltf = [](int const& a, int const& b) { return a < b; };
extern "C" void mismatch() {
    shape s = sym_shape(6 + TIER, 3); auto v = sym_vec(s.n), w = sym_vec(s.n, "w"), o = v, ow = w; auto p = order_pool(1); std::pair<std::vector<int>::iterator, std::vector<int>::iterator> r;
    if (sym_flip("overload")) r = in_pool(p, [&] { return ba::parallel_mismatch(v.begin(), v.end(), w.begin(), eqf, s.cut); });
    else r = in_pool(p, [&] { return ba::parallel_mismatch(v.begin(), v.end(), w.begin(), s.cut); });
    auto e = std::mismatch(o.begin(), o.end(), ow.begin());
    CHECK(r.first - v.begin() == e.first - o.begin() && r.second - w.begin() == e.second - ow.begin(), "parallel_mismatch: not the first difference"); asym_out("r", r.first - v.begin()); asym_reach("end");
}
extern "C" void equal() {
    shape s = sym_shape(6 + TIER, 3); auto v = sym_vec(s.n), w = sym_vec(s.n, "w"), o = v, ow = w; auto p = order_pool(1); bool r;
    if (sym_flip("overload")) r = in_pool(p, [&] { return ba::parallel_equal(v.begin(), v.end(), w.begin(), eqf, s.cut); });
    else r = in_pool(p, [&] { return ba::parallel_equal(v.begin(), v.end(), w.begin(), s.cut); });
    CHECK(r == same(o, ow), "parallel_equal: wrong answer"); asym_out("r", r); asym_reach("end");
}
extern "C" void lexi() {
    int n = sym_choice("n", 5), m = sym_choice("m", 5); long cut = 1 + sym_choice("cut", 3); auto v = sym_vec(n), w = sym_vec(m, "w"), o = v, ow = w; auto p = order_pool(1); bool r;
    if (sym_flip("overload")) r = in_pool(p, [&] { return ba::parallel_lexicographical_compare(v.begin(), v.end(), w.begin(), w.end(), ltf, cut); });
    else r = in_pool(p, [&] { return ba::parallel_lexicographical_compare(v.begin(), v.end(), w.begin(), w.end(), cut); });
    bool e = n < m, done = false; int k = n < m ? n : m; for (int i = k - 1; i >= 0; i--) e = (ow[i] < o[i]) ? false : (o[i] < ow[i]) ? true : e; (void)done;
    CHECK(r == e, "parallel_lexicographical_compare: wrong answer"); asym_out("r", r); asym_reach("end");
}
extern "C" void sorted() {
    shape s = sym_shape(6 + TIER, 4); auto v = sym_vec(s.n), o = v; auto p = order_pool(1); bool rev = sym_flip("overload"), r;
    if (rev) r = in_pool(p, [&] { return ba::parallel_is_reverse_sorted(v.begin(), v.end(), ltf, s.cut); });
    else r = in_pool(p, [&] { return ba::parallel_is_sorted(v.begin(), v.end(), ltf, s.cut); });
    bool up = true, down = true; for (int i = 1; i < s.n; i++) { up &= !(o[i] < o[i - 1]); down &= !(o[i - 1] < o[i]); }
    if (rev) { CHECK(!r | down, "parallel_is_reverse_sorted: true for a range that is not"); bool strict = true; for (int i = 1; i < s.n; i++) strict &= o[i] < o[i - 1]; CHECK(r | !strict, "parallel_is_reverse_sorted: false for a reverse sorted range"); }
    else CHECK(r == up, "parallel_is_sorted: wrong answer"); asym_out("r", r); asym_reach("end");
}
extern "C" void partitioned() {
    shape s = sym_shape(7, 4); auto v = sym_vec(s.n), o = v; auto p = order_pool(1); auto pr = [](int const& a) { return a > 3; };
    bool r = in_pool(p, [&] { return ba::parallel_is_partitioned(v.begin(), v.end(), pr, s.cut); });
    bool e = true; for (int i = 1; i < s.n; i++) e &= !((o[i] > 3) & !(o[i - 1] > 3));
    CHECK(r == e, "parallel_is_partitioned: wrong answer"); asym_out("r", r); asym_reach("end");
}
struct hits { std::vector<long> at; template<class I> void operator()(I const& i) { at.push_back((long)i); } void merge(hits&& o) { at.insert(at.end(), o.at.begin(), o.at.end()); } };
extern "C" void kmp() {
    int n = sym_choice("n", 6 + TIER), m = sym_choice("m", 4); long cut = 1 + sym_choice("cut", 3); auto v = sym_vec(n, 0, 1), q = sym_vec(m, 0, 1, "q"), o = v, oq = q; auto p = order_pool(1); hits r;
    const auto& cv = v; const auto& cq = q;
    switch (sym_choice("overload", 6)) {
        case 0: r = in_pool(p, [&] { return ba::parallel_kmp(v.begin(), v.end(), q.begin(), q.end(), hits(), cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_kmp(cv, cq, hits(), cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_kmp(std::move(v), std::move(q), hits(), cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_kmp(cb_source(v), cb_source(q), hits(), cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_kmp(v.begin(), v.end(), cb_source(q), hits(), cut); }); break;
        case 5: r = in_pool(p, [&] { return ba::parallel_kmp(cb_source(v), q.begin(), q.end(), hits(), cut); }); break;
    }
    std::vector<long> w; if (m) for (int i = 0; i + m <= n; i++) { bool eq = true; for (int j = 0; j < m; j++) eq &= o[i + j] == oq[j]; if (eq) w.push_back(i); }
    CHECK(same(r.at, w), "parallel_kmp: not the positions of the needle"); asym_out("n", r.at.size()); asym_reach("end");
}
