//@ for_all | parallel_for: iterators, iterator functor, const range, moved range, callback and future continuation, nested, list iterators, integers | length 0..6, symbolic 32-bit values, cutoff 1..4, 1 departure from FIFO chunk order
//@ for_order | parallel_for over iterators | length 0..8, cutoff 1..3, up to 3 departures from FIFO chunk order
//@ for_each | parallel_for_each merges every chunk's functor | length 0..7, cutoff 1..4, 2 departures
#include "common.h"
#include <list>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
auto f = [](el& e) { calls[e.id]++; e.v = e.v * 2 + 1; };
auto fc = [](el const& e) { calls[e.id]++; const_cast<el&>(e).v = e.v * 2 + 1; };
auto fi = [](std::vector<el>::iterator b, std::vector<el>::iterator e) { for (; b != e; ++b) { calls[b->id]++; b->v = b->v * 2 + 1; } };
template<class R> void verify(R const& r, std::vector<el> const& o, int k = 1) {
    CHECK(r.size() == o.size(), "parallel_for: result has another length"); auto j = r.begin();
    for (auto& x : o) { int w = x.v; for (int q = 0; q < k; q++) w = w * 2 + 1; CHECK(j->id == x.id && j->v == w, "parallel_for: an element was not processed exactly once"); ++j; }
    bool c = true; for (size_t i = 0; i < 32; i++) c &= calls[i] == (i < o.size() ? k : 0); CHECK(c, "parallel_for: functor not called once per element"); asym_reach("end");
}
extern "C" void for_all() {
    shape s = sym_shape(6, 4); auto v = el_vec(s.n); auto o = v; int var = sym_choice("overload", 10); auto p = order_pool(1);
    switch (var) {
        case 0: in_pool(p, [&] { return ba::parallel_for(v.begin(), v.end(), f, s.cut); }); verify(v, o); break;
        case 1: in_pool(p, [&] { return ba::parallel_for(v.begin(), v.end(), fi, s.cut); }); verify(v, o); break;
        case 2: in_pool(p, [&] { return ba::parallel_for(const_cast<std::vector<el> const&>(v), fc, s.cut); }); verify(v, o); break;
        case 3: { auto r = in_pool(p, [&] { return ba::parallel_for(std::move(v), f, s.cut); }); verify(r, o); break; }
        case 4: { auto r = in_pool(p, [&] { return ba::parallel_for(cb_source(v), f, s.cut); }); verify(r, o); break; }
        case 5: { auto r = in_pool(p, [&] { return ba::parallel_for(fu_source(v), f, s.cut); }); verify(r, o); break; }
        case 6: { auto r = in_pool(p, [&] { return ba::parallel_for(ba::parallel_for(std::move(v), f, s.cut), f, s.cut); }); verify(r, o, 2); break; }
        case 7: { std::list<el> l(v.begin(), v.end()); in_pool(p, [&] { return ba::parallel_for(l.begin(), l.end(), f, s.cut); }); verify(l, o); break; }
        case 8: { in_pool(p, [&] { return ba::parallel_for(0, s.n, [&](int const& i) { calls[i]++; v[i].v = v[i].v * 2 + 1; }, s.cut); }); verify(v, o); break; }
        case 9: { auto r = in_pool(p, [&] { return ba::parallel_for(std::move(v), fi, s.cut); }); verify(r, o); break; }
    }
}
extern "C" void for_order() {
    shape s = sym_shape(8 + 2 * TIER, 3); std::vector<el> g = el_vec(s.n + 2); auto o = g; auto p = order_pool(3 + TIER);
    in_pool(p, [&] { return ba::parallel_for(g.begin() + 1, g.end() - 1, f, s.cut); });
    bool ok = calls[0] == 0 && calls[s.n + 1] == 0; for (int i = 0; i <= s.n + 1; i++) { bool in = i >= 1 && i <= s.n; ok &= calls[i] == in; ok &= g[i].v == (in ? o[i].v * 2 + 1 : o[i].v); }
    CHECK(ok, "parallel_for touched an element not exactly once or outside the range"); asym_reach("end");
}
struct acc { int sum = 0; int n = 0; void operator()(int const& x) { sum += x; n++; } void merge(acc const& o) { sum += o.sum; n += o.n; } };
extern "C" void for_each() {
    shape s = sym_shape(7, 4); auto v = sym_vec(s.n); int sum = 0; for (int x : v) sum += x; auto p = order_pool(2); acc r;
    r = in_pool(p, [&] { return ba::parallel_for_each(v.begin(), v.end(), acc(), s.cut); });
    CHECK(r.sum == sum && r.n == s.n, "parallel_for_each: merged functor has not seen every element once"); asym_out("sum", r.sum); asym_reach("end");
}
