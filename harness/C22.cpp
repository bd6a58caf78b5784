//@ merge | parallel_merge of two sorted ranges with ties: the stable merge, nothing written outside | lengths 0..3 each, keys 0..2 symbolic, cutoff 0..3, 1 departure
//@ merge_greater | parallel_merge with a caller comparison and wide symbolic keys | lengths 0..3 and 0..2, symbolic 32-bit keys, cutoff 1..2
//@ group_by | parallel_group_by: iterators, range reference, moved range, continuation | length 0..5, sorted symbolic keys 0..2, cutoff 1..3, 1 departure
//@ grouped_for | parallel_grouped_for: element functor and whole-group functor, all overloads: once per element, groups never split | length 0..5, sorted symbolic keys, cutoff 1..3, 1 departure
//@ grouped_transform | parallel_grouped_transform: element functor and whole-group functor, all overloads | length 0..5, sorted symbolic keys, cutoff 1..3, 1 departure
//@ flatten | parallel_flatten: iterators, range reference, moved range, continuation | up to 4 inner vectors of length 0..2, symbolic values, both cutoffs 1..2, FIFO (thorough: 1 departure)
#include "sortcommon.h"
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_flatten.hpp>
template<class F> static void merge_ok(std::vector<kv> const& a, std::vector<kv> const& b, std::vector<kv> const& out, F f) {
    std::vector<kv> all(a); all.insert(all.end(), b.begin(), b.end()); CHECK(out.size() == all.size() + 2 && out.front().id == -77 && out.back().id == -77, "parallel_merge: wrote outside the output range");
    sorted_ok(std::vector<kv>(out.begin() + 1, out.end() - 1), all, f, true);
}
static std::vector<kv> sorted_kv(int n, int first, int lo, int hi, int dir = 1) { std::vector<kv> v(n); for (int i = 0; i < n; i++) { v[i].id = first + i; v[i].key = lo == hi ? sym_i32("k") : sym_int("k", lo, hi); if (i) asym_assume(dir > 0 ? v[i - 1].key <= v[i].key : v[i - 1].key >= v[i].key); } return v; }
extern "C" void merge() {
    int n = sym_choice("n", 4), m = sym_choice("m", 4); long cut = sym_choice("cut", 4); auto a = sorted_kv(n, 0, 0, 2), b = sorted_kv(m, n, 0, 2), a0 = a, b0 = b; auto p = order_pool(1 + TIER); kv g; g.id = -77; std::vector<kv> out(n + m + 2, g);
    in_pool(p, [&] { return ba::parallel_merge(a.begin(), a.end(), b.begin(), b.end(), out.begin() + 1, lt, cut); });
    merge_ok(a0, b0, out, lt); bool ok = true; for (int i = 0; i < n; i++) ok &= a[i].id == i; for (int i = 0; i < m; i++) ok &= b[i].id == n + i; CHECK(ok, "parallel_merge: changed its input"); asym_reach("end");
}
extern "C" void merge_greater() {
    int n = sym_choice("n", 4), m = sym_choice("m", 3); long cut = 1 + sym_choice("cut", 2); auto a = sorted_kv(n, 0, 0, 0, -1), b = sorted_kv(m, n, 0, 0, -1); auto p = order_pool(0); kv g; g.id = -77; std::vector<kv> out(n + m + 2, g);
    in_pool(p, [&] { return ba::parallel_merge(a.begin(), a.end(), b.begin(), b.end(), out.begin() + 1, gt, cut); });
    merge_ok(a, b, out, gt); asym_reach("end");
}
struct cmp_t { bool operator()(kv const& a, kv const& b) const { return a.key < b.key; } };
extern "C" void group_by() {
    shape s = sym_shape(5, 3); auto v = sorted_kv(s.n, 0, 0, 2), o = v; typedef std::vector<std::vector<kv>> G; G r; auto p = order_pool(1);
    switch (sym_choice("overload", 4)) {
        case 0: r = in_pool(p, [&] { return ba::parallel_group_by<G>(v.begin(), v.end(), cmp_t(), s.cut); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_group_by<G>(v, cmp_t(), s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_group_by<G>(std::move(v), cmp_t(), s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_group_by<G>(cb_source(v), cmp_t(), s.cut); }); break;
    }
    int pos = 0; bool ok = true, grp = true; int last = -1;
    for (auto& g : r) { CHECK(!g.empty(), "parallel_group_by: empty group"); grp &= last < g[0].key; last = g[0].key; for (auto& e : g) { CHECK(pos < s.n, "parallel_group_by: too many elements"); ok &= (e.id == pos) & (e.key == o[pos].key); grp &= e.key == last; ++pos; } }
    CHECK(pos == s.n && ok, "parallel_group_by: elements lost, repeated or moved"); CHECK(grp, "parallel_group_by: a group was split or mixed"); asym_reach("end");
}
static bool bounds_ok(std::vector<kv> const& o, int b, int e) { bool r = true; int n = o.size(); if (b > 0 && b < n) r &= o[b - 1].key != o[b].key; if (e > 0 && e < n) r &= o[e - 1].key != o[e].key; return r; }
extern "C" void grouped_for() {
    shape s = sym_shape(5, 3); auto v = sorted_kv(s.n, 0, 0, 2), o = v; auto p = order_pool(1); for (int& c : calls) c = 0; typedef std::vector<kv>::iterator I; bool grp = true; bool* gp = &grp; auto* op = &o; std::vector<kv> r;
    auto f1 = [](kv& e) { calls[e.id]++; e.key += 100; }; auto f2 = [gp, op](I b, I e) { if (b != e) *gp &= bounds_ok(*op, b->id, (e - 1)->id + 1); for (; b != e; ++b) { calls[b->id]++; b->key += 100; } };
    switch (sym_choice("overload", 6)) {
        case 0: in_pool(p, [&] { return ba::parallel_grouped_for(v.begin(), v.end(), cmp_t(), f1, s.cut); }); r = v; break;
        case 1: in_pool(p, [&] { return ba::parallel_grouped_for(v.begin(), v.end(), cmp_t(), f2, s.cut); }); r = v; break;
        case 2: in_pool(p, [&] { return ba::parallel_grouped_for(v, cmp_t(), f2, s.cut); }); r = v; break;
        case 3: r = in_pool(p, [&] { return ba::parallel_grouped_for(std::move(v), cmp_t(), f2, s.cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_grouped_for(cb_source(v), cmp_t(), f2, s.cut); }); break;
        case 5: r = in_pool(p, [&] { return ba::parallel_grouped_for(cb_source(v), cmp_t(), f1, s.cut); }); break;
    }
    CHECK(once(s.n), "parallel_grouped_for: not once per element"); CHECK(grp, "parallel_grouped_for: a group was split between two calls"); bool ok = (int)r.size() == s.n; for (int i = 0; ok && i < s.n; i++) ok = (r[i].id == i) & (r[i].key == o[i].key + 100); CHECK(ok, "parallel_grouped_for: contents"); asym_reach("end");
}
extern "C" void grouped_transform() {
    shape s = sym_shape(5, 3); auto v = sorted_kv(s.n, 0, 0, 2), o = v; auto p = order_pool(1); for (int& c : calls) c = 0; typedef std::vector<kv>::iterator I; typedef std::vector<int> R; typedef R::iterator OI; bool grp = true; bool* gp = &grp; auto* op = &o; R out(s.n + 2, -7), r;
    auto f1 = [](kv const& e) { calls[e.id]++; return e.key * 16 + e.id; }; auto f2 = [gp, op](I b, I e, OI out) { if (b != e) *gp &= bounds_ok(*op, b->id, (e - 1)->id + 1); for (; b != e; ++b) { calls[b->id]++; *out++ = b->key * 16 + b->id; } };
    OI e; int var = sym_choice("overload", 6); 
    switch (var) {
        case 0: e = in_pool(p, [&] { return ba::parallel_grouped_transform(v.begin(), v.end(), out.begin() + 1, cmp_t(), f1, s.cut); }); break;
        case 1: e = in_pool(p, [&] { return ba::parallel_grouped_transform(v.begin(), v.end(), out.begin() + 1, cmp_t(), f2, s.cut); }); break;
        case 2: e = in_pool(p, [&] { return ba::parallel_grouped_transform(v, out.begin() + 1, cmp_t(), f2, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_grouped_transform<R>(std::move(v), cmp_t(), f2, s.cut); }); break;
        case 4: r = in_pool(p, [&] { return ba::parallel_grouped_transform<R>(cb_source(v), cmp_t(), f2, s.cut); }); break;
        case 5: r = in_pool(p, [&] { return ba::parallel_grouped_transform<R>(cb_source(v), cmp_t(), f1, s.cut); }); break;
    }
    if (var < 3) { CHECK(e == out.end() - 1, "parallel_grouped_transform: wrong end"); CHECK(out.front() == -7 && out.back() == -7, "parallel_grouped_transform: wrote outside"); r.assign(out.begin() + 1, out.end() - 1); }
    CHECK(once(s.n), "parallel_grouped_transform: not once per element"); CHECK(grp, "parallel_grouped_transform: a group was split between two calls"); bool ok = (int)r.size() == s.n; for (int i = 0; ok && i < s.n; i++) ok = r[i] == o[i].key * 16 + i; CHECK(ok, "parallel_grouped_transform: contents"); asym_reach("end");
}
extern "C" void flatten() {
    int n = sym_choice("n", 5); long c1 = 1 + sym_choice("cut1", 2), c2 = 1 + sym_choice("cut2", 2); std::vector<std::vector<int>> v; std::vector<int> want, r; for (int i = 0; i < n; i++) { v.push_back(sym_vec(sym_choice("len", 3))); want.insert(want.end(), v.back().begin(), v.back().end()); }
    auto p = order_pool(TIER);
    switch (sym_choice("overload", 4)) {
        case 0: r = in_pool(p, [&] { return ba::parallel_flatten(v.begin(), v.end(), c1, c2); }); break;
        case 1: r = in_pool(p, [&] { return ba::parallel_flatten(v, c1, c2); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_flatten(std::move(v), c1, c2); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_flatten(cb_source(v), c1, c2); }); break;
    }
    CHECK(same(r, want), "parallel_flatten is not the concatenation"); asym_reach("end");
}
