//@ replace | parallel_replace and parallel_replace_if: iterators, moved range, continuation | length 0..5, symbolic values, cutoff 1..3, 1 departure
//@ grouped_for | parallel_grouped_for on sorted ranges: every element once, equal elements never split over chunks; iterators, range, moved range, continuation | length 1..6, symbolic sorted values 0..3, cutoff 1..3, 1 departure
//@ grouped_tr | parallel_grouped_transform: iterators, range, moved range, continuation, element and range functors | length 1..6, symbolic sorted values 0..3, cutoff 1..3, 1 departure
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
typedef std::vector<int>::iterator it_t; typedef std::vector<el>::iterator eit_t;
extern "C" void replace() {
    shape s = sym_shape(5, 3); auto v = sym_vec(s.n), o = v; int x = sym_i32("old"), y = sym_i32("new"); auto p = order_pool(1); std::vector<int> r; bool ok = true, pi = false;
    auto pr = [](int const& a) { return a < 0; };
    switch (sym_choice("overload", 8)) {
        case 0: { guarded<int> g(v, 5, 6); in_pool(p, [&] { return ba::parallel_replace(g.begin(), g.end(), x, y, s.cut); }); ok = g.intact(); r.assign(g.begin(), g.end()); break; }
        case 1: r = in_pool(p, [&] { return ba::parallel_replace(std::move(v), x, y, s.cut); }); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_replace(cb_source(v), x, y, s.cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_replace(fu_source(v), x, y, s.cut); }); break;
        case 4: { pi = true; guarded<int> g(v, 5, 6); in_pool(p, [&] { return ba::parallel_replace_if(g.begin(), g.end(), pr, y, s.cut); }); ok = g.intact(); r.assign(g.begin(), g.end()); break; }
        case 5: pi = true; r = in_pool(p, [&] { return ba::parallel_replace_if(std::move(v), pr, y, s.cut); }); break;
        case 6: pi = true; r = in_pool(p, [&] { return ba::parallel_replace_if(cb_source(v), pr, y, s.cut); }); break;
        case 7: pi = true; r = in_pool(p, [&] { return ba::parallel_replace_if(fu_source(v), pr, y, s.cut); }); break;
    }
    ok &= r.size() == (size_t)s.n; for (int i = 0; i < s.n && i < (int)r.size(); i++) ok &= r[i] == ((pi ? o[i] < 0 : o[i] == x) ? y : o[i]);
    CHECK(ok, "parallel_replace: wrong contents"); asym_reach("end");
}
static std::vector<el> sorted_els(int n) { std::vector<el> v(n); int last = 0; for (int i = 0; i < n; i++) { v[i].id = i; v[i].v = last + sym_int("d", 0, 1); last = v[i].v; } for (int& c : calls) c = 0; return v; }
static auto lt = [](el const& a, el const& b) { return a.v < b.v; };
static int chunk[32], nchunk; static bool mark[32];
extern "C" void grouped_for() {
    int n = 1 + sym_choice("n", 6); long cut = 1 + sym_choice("cut", 3); auto v = sorted_els(n); auto p = order_pool(1); nchunk = 0; for (int& c : chunk) c = -1; bool bulk = true; size_t rs = n;
    auto fb = [](eit_t b, eit_t e) { int c = nchunk++; for (; b != e; ++b) { calls[b->id]++; chunk[b->id] = c; } };
    auto fe = [](el& e) { calls[e.id]++; };
    switch (sym_choice("overload", 6)) {
        case 0: in_pool(p, [&] { return ba::parallel_grouped_for(v.begin(), v.end(), lt, fb, cut); }); break;
        case 1: in_pool(p, [&] { return ba::parallel_grouped_for(v, lt, fb, cut); }); break;
        case 2: rs = in_pool(p, [&] { return ba::parallel_grouped_for(std::vector<el>(v), lt, fb, cut); }).size(); break;
        case 3: rs = in_pool(p, [&] { return ba::parallel_grouped_for(cb_source(v), lt, fb, cut); }).size(); break;
        case 4: bulk = false; in_pool(p, [&] { return ba::parallel_grouped_for(v.begin(), v.end(), lt, fe, cut); }); break;
        case 5: bulk = false; rs = in_pool(p, [&] { return ba::parallel_grouped_for(cb_source(v), lt, fe, cut); }).size(); break;
    }
    CHECK(once(n) && rs == (size_t)n, "parallel_grouped_for: functor not called once per element");
    if (bulk) { bool ok = true; for (int i = 0; i + 1 < n; i++) ok &= (chunk[i] == chunk[i + 1]) | (v[i].v != v[i + 1].v); CHECK(ok, "parallel_grouped_for: a group was split"); }
    asym_reach("end");
}
extern "C" void grouped_tr() {
    int n = 1 + sym_choice("n", 6); long cut = 1 + sym_choice("cut", 3); auto v = sorted_els(n); auto p = order_pool(1); nchunk = 0; for (int& c : chunk) c = -1; bool bulk = true;
    guarded<int> out(std::vector<int>(n, 0), 5, 6); std::vector<int> r; bool end = true;
    auto fb = [](eit_t b, eit_t e, it_t o) { int c = nchunk++; for (; b != e; ++b, ++o) { calls[b->id]++; chunk[b->id] = c; *o = b->v * 3 + b->id; } };
    auto fe = [](el& e) { calls[e.id]++; return e.v * 3 + e.id; };
    switch (sym_choice("overload", 5)) {
        case 0: end = in_pool(p, [&] { return ba::parallel_grouped_transform(v.begin(), v.end(), out.begin(), lt, fb, cut); }) == out.end(); r.assign(out.begin(), out.end()); break;
        case 1: end = in_pool(p, [&] { return ba::parallel_grouped_transform(v, out.begin(), lt, fb, cut); }) == out.end(); r.assign(out.begin(), out.end()); break;
        case 2: r = in_pool(p, [&] { return ba::parallel_grouped_transform<std::vector<int>>(std::vector<el>(v), lt, fb, cut); }); break;
        case 3: r = in_pool(p, [&] { return ba::parallel_grouped_transform<std::vector<int>>(cb_source(v), lt, fb, cut); }); break;
        case 4: bulk = false; end = in_pool(p, [&] { return ba::parallel_grouped_transform(v.begin(), v.end(), out.begin(), lt, fe, cut); }) == out.end(); r.assign(out.begin(), out.end()); break;
    }
    CHECK(end, "parallel_grouped_transform: wrong end"); CHECK(once(n) && out.intact(), "parallel_grouped_transform: functor not called once per element");
    bool ok = r.size() == (size_t)n; for (int i = 0; ok && i < n; i++) ok &= r[i] == v[i].v * 3 + i; CHECK(ok, "parallel_grouped_transform: wrong output");
    if (bulk) { bool k = true; for (int i = 0; i + 1 < n; i++) k &= (chunk[i] == chunk[i + 1]) | (v[i].v != v[i + 1].v); CHECK(k, "parallel_grouped_transform: a group was split"); }
    asym_reach("end");
}
