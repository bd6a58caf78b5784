//@ then | then: functor returning a value, void, a continuation or a continuation of void; chained twice; the source or a step may throw; each step runs once, after the previous one | every value, each source inline or asynchronous, 1 departure from FIFO
//@ then_void | then after a void continuation | every value, throwing or not, 1 departure
//@ branch time=100 | if_then_else: condition on the value, either branch, throwing source / condition / clause / branch continuation | every value, 1 departure
//@ chain time=100 | if_ / else_if / else_: conditions on the value, only the chosen branch runs, throwing at each place | every value, 1 departure
//@ invoke | invoke: the functor gets the continuation's result; throwing source or functor | every value, 1 departure
//@ par_invoke | parallel_invoke of three tasks (value, void, throwing by choice): each runs once, outcomes in place | every value, 1 departure (thorough 2)
//@ all_of_tuple | all_of of three continuations, arguments or tuple: values in place, exception of one of those that threw | every value, every throwing subset, inline or asynchronous, 1 departure
//@ all_of_vector | all_of of a vector of continuations (0..3 of them), values and void | every value, every throwing subset, 1 departure
//@ any_of | any_of of three continuations: one that succeeded, index and value agree; combined exception when all fail | every value, every throwing subset, inline or asynchronous, 1 departure
//@ all_any_conc q.preempt=1 preempt=2 time=150 | all_of and any_of whose two sources finish on different worker threads | two workers, every interleaving within the preemption bound, throwing subset
#include "pools.h"
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/if_then_else.hpp>
#include <boost/asynchronous/algorithm/if_else.hpp>
#include <boost/asynchronous/algorithm/invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/any_of.hpp>
struct my_ex { int code; };
// a continuation giving x, or throwing code (if nonzero); depth 0: finished when it is returned
struct src_task : ba::continuation_task<int> { int x, code, depth; src_task(int a, int c, int d) : ba::continuation_task<int>("s"), x(a), code(c), depth(d) {}
    void operator()() { auto res = this->this_task_result(); if (depth > 0) { ba::create_callback_continuation([res](std::tuple<ba::expected<int>, ba::expected<int>> r) mutable { if (std::get<0>(r).has_exception()) res.set_exception(std::get<0>(r).get_exception_ptr()); else res.set_value(std::get<0>(r).get()); }, src_task(x, code, 0), src_task(0, 0, 0)); }
        else if (code) res.set_exception(std::make_exception_ptr(my_ex{code})); else res.set_value(x); } };
static auto src(int x, int code, int depth) { return ba::top_level_callback_continuation<int>(src_task(x, code, depth)); }
struct vsrc_task : ba::continuation_task<void> { int* ran; int code, depth; vsrc_task(int* a, int c, int d) : ba::continuation_task<void>("s"), ran(a), code(c), depth(d) {}
    void operator()() { auto res = this->this_task_result(); if (depth > 0) { ba::create_callback_continuation([res](std::tuple<ba::expected<void>, ba::expected<int>> r) mutable { if (std::get<0>(r).has_exception()) res.set_exception(std::get<0>(r).get_exception_ptr()); else res.set_value(); }, vsrc_task(ran, code, 0), src_task(0, 0, 0)); }
        else { ++*ran; if (code) res.set_exception(std::make_exception_ptr(my_ex{code})); else res.set_value(); } } };
static auto vsrc(int* ran, int code, int depth) { return ba::top_level_callback_continuation<void>(vsrc_task(ran, code, depth)); }
static int f1(int x) { return (int)((unsigned)x * 3u + 1u); }
static int f2(int x) { return (int)((unsigned)x ^ 0x5au); }
template<class F> static void outcome(pool_t& p, F f, int& r, int& ex) { r = 0; ex = 0; auto fu = ba::post_future(p, std::move(f)); try { r = fu.get(); } catch (my_ex const& e) { ex = e.code; } catch (...) { ex = -1; } }
static int code_for(unsigned thrower, unsigned me) { return thrower == me ? (int)me + 100 : 0; }
extern "C" void then_() asm("then"); extern "C" void then_() {
    int x = sym_i32("x"), r, ex; unsigned th = sym_choice("thrower", 4), d = sym_choice("async", 2), kind = sym_choice("kind", 4); auto p = order_pool(1); int n1 = 0, n2 = 0, got1 = 0; int *p1 = &n1, *p2 = &n2, *g1 = &got1; int vran = 0, *pv = &vran;
    auto s1 = [=](ba::expected<int> e) { ++*p1; int v = e.get(); *g1 = v; if (th == 2) throw my_ex{102}; return f1(v); };
    switch (kind) {
        case 0: outcome(p, [=] { return ba::then(ba::then(src(x, code_for(th, 1), d), s1), [=](ba::expected<int> e) { ++*p2; int v = e.get(); if (th == 3) throw my_ex{103}; return f2(v); }); }, r, ex); break;
        case 1: outcome(p, [=] { return ba::then(ba::then(src(x, code_for(th, 1), d), s1), [=](ba::expected<int> e) { ++*p2; return src(f2(e.get()), code_for(th, 3), d); }); }, r, ex); break;
        case 2: outcome(p, [=] { return ba::then(ba::then(ba::then(src(x, code_for(th, 1), d), s1), [=](ba::expected<int> e) { ++*p2; *pv = e.get(); if (th == 3) throw my_ex{103}; }), [=](ba::expected<void> e) { e.get(); return f2(*pv); }); }, r, ex); break;
        case 3: { static int ran; ran = 0; outcome(p, [=] { return ba::then(ba::then(ba::then(src(x, code_for(th, 1), d), s1), [=](ba::expected<int> e) { ++*p2; *pv = e.get(); return vsrc(&ran, code_for(th, 3), d); }), [=](ba::expected<void> e) { e.get(); return f2(*pv); }); }, r, ex);
            CHECK(ran == (th == 1 || th == 2 ? 0 : 1), "then: inner continuation"); break; }
    }
    CHECK(n1 == 1 && n2 == 1, "then: a step did not run exactly once"); CHECK(ex == (th ? (int)th + 100 : 0), "then: wrong exception"); if (!th) CHECK(r == f2(f1(x)), "then: wrong result"); if (th != 1) CHECK(got1 == x, "then: a step got the wrong value"); asym_out("r", r); asym_reach("end");
}
extern "C" void then_void() {
    int x = sym_i32("x"), r, ex; unsigned th = sym_choice("thrower", 3), d = sym_choice("async", 2); auto p = order_pool(1); int ran = 0, *pr = &ran; bool after = false, *pa = &after;
    outcome(p, [=] { return ba::then(vsrc(pr, code_for(th, 1), d), [=](ba::expected<void> e) { *pa = *pr == 1; e.get(); if (th == 2) throw my_ex{102}; return f1(x); }); }, r, ex);
    CHECK(after, "then: the step ran before the previous one had finished"); CHECK(ran == 1, "then: source ran twice"); CHECK(ex == (th ? (int)th + 100 : 0), "then: wrong exception"); if (!th) CHECK(r == f1(x), "then: wrong result"); asym_out("r", r); asym_reach("end");
}
extern "C" void branch() {
    int x = sym_i32("x"), r, ex; unsigned th = sym_choice("thrower", 5), d = sym_choice("async", 2); auto p = order_pool(1); int nt = 0, ne = 0, *pt = &nt, *pe = &ne;
    bool c = asym_conc(x > 7) != 0;
    outcome(p, [=] { return ba::if_then_else([=](int const& v) { if (th == 2) throw my_ex{102}; return v > 7; }, [=](int v) { ++*pt; if (th == 3) throw my_ex{103}; return src(f1(v), code_for(th, 4), d); }, [=](int v) { ++*pe; if (th == 3) throw my_ex{103}; return src(f2(v), code_for(th, 4), d); })(src(x, code_for(th, 1), d)); }, r, ex);
    bool sk = th == 1 || th == 2; CHECK(nt == (!sk && c) && ne == (!sk && !c), "if_then_else: wrong branch ran"); CHECK(ex == (th ? (int)th + 100 : 0), "if_then_else: wrong exception"); if (!th) CHECK(r == (c ? f1(x) : f2(x)), "if_then_else: wrong result"); asym_out("r", r); asym_reach("end");
}
extern "C" void chain() {
    int x = sym_i32("x"), r, ex; unsigned th = sym_choice("thrower", 6), d = sym_choice("async", 2); auto p = order_pool(1); int n[3] = {}, *pn = n; bool elif = sym_flip("else_if");
    bool c1 = asym_conc(x > 7) != 0, c2 = asym_conc(x < -7) != 0;
    auto i1 = [=](int const& v) { if (th == 2) throw my_ex{102}; return v > 7; }; auto t1 = [=](int v) { ++pn[0]; if (th == 3) throw my_ex{103}; return src(f1(v), code_for(th, 4), d); };
    auto i2 = [=](int const& v) { if (th == 5) throw my_ex{105}; return v < -7; }; auto t2 = [=](int v) { ++pn[1]; if (th == 3) throw my_ex{103}; return src(f2(v), code_for(th, 4), d); };
    auto e = [=](int v) { ++pn[2]; if (th == 3) throw my_ex{103}; return src(f1(f2(v)), code_for(th, 4), d); };
    if (elif) outcome(p, [=] { return ba::else_(ba::else_if(ba::if_(src(x, code_for(th, 1), d), i1, t1), i2, t2), e); }, r, ex);
    else outcome(p, [=] { return ba::else_(ba::if_(src(x, code_for(th, 1), d), i1, t1), e); }, r, ex);
    int br = c1 ? 0 : elif && c2 ? 1 : 2; bool sk = th == 1 || th == 2 || (th == 5 && elif && !c1); int want = th == 0 ? 0 : th == 5 ? (elif && !c1 ? 105 : 0) : (int)th + 100;
    for (int k = 0; k < 3; k++) CHECK(n[k] == (!sk && k == br), "if_/else_if/else_: wrong branch ran"); CHECK(ex == want, "if_/else_if/else_: wrong exception"); if (!want) CHECK(r == (br == 0 ? f1(x) : br == 1 ? f2(x) : f1(f2(x))), "if_/else_if/else_: wrong result"); asym_out("r", r); asym_reach("end");
}
extern "C" void invoke() {
    int x = sym_i32("x"), r, ex; unsigned th = sym_choice("thrower", 3), d = sym_choice("async", 2); auto p = order_pool(1); int n = 0, *pn = &n;
    outcome(p, [=] { return ba::invoke(src(x, code_for(th, 1), d), [=](int v) { ++*pn; if (th == 2) throw my_ex{102}; return f1(v); }); }, r, ex);
    CHECK(n == (th != 1), "invoke: functor calls"); CHECK(ex == (th ? (int)th + 100 : 0), "invoke: wrong exception"); if (!th) CHECK(r == f1(x), "invoke: wrong result"); asym_out("r", r); asym_reach("end");
}
extern "C" void par_invoke() {
    int x = sym_i32("x"), y = sym_i32("y"); bool t[3]; for (auto& b : t) b = sym_flip("throws"); auto p = order_pool(1 + TIER); int n[3] = {}, *pn = n; bool t0 = t[0], t1 = t[1], t2 = t[2];
    auto fu = ba::post_future(p, [=] { return ba::parallel_invoke<ba::any_callable>(ba::to_continuation_task([=] { ++pn[0]; if (t0) throw my_ex{100}; return x; }), ba::to_continuation_task([=] { ++pn[1]; if (t1) throw my_ex{101}; }), ba::to_continuation_task([=] { ++pn[2]; if (t2) throw my_ex{102}; return (long)y; })); });
    auto r = fu.get(); CHECK(n[0] == 1 && n[1] == 1 && n[2] == 1, "parallel_invoke: not once each"); 
    int ex[3] = {}; int a = 0; long b = 0; try { a = std::get<0>(r).get(); } catch (my_ex const& e) { ex[0] = e.code; } try { std::get<1>(r).get(); } catch (my_ex const& e) { ex[1] = e.code; } try { b = std::get<2>(r).get(); } catch (my_ex const& e) { ex[2] = e.code; }
    for (int i = 0; i < 3; i++) CHECK(ex[i] == (t[i] ? 100 + i : 0), "parallel_invoke: wrong exception"); if (!t[0]) CHECK(a == x, "parallel_invoke: wrong value"); if (!t[2]) CHECK(b == y, "parallel_invoke: wrong value"); asym_reach("end");
}
extern "C" void all_of_tuple() {
    int x = sym_i32("x"), y = sym_i32("y"); bool t[3]; unsigned d[3]; for (int i = 0; i < 3; i++) { t[i] = sym_flip("throws"); d[i] = sym_choice("async", 2); } auto p = order_pool(1); int ran = 0, *pr = &ran; bool tup = sym_flip("tuple");
    int c0 = t[0] ? 100 : 0, c1 = t[1] ? 101 : 0, c2 = t[2] ? 102 : 0; unsigned d0 = d[0], d1 = d[1], d2 = d[2]; typedef std::tuple<int, ba::detail::void_wrapper, int> R; R r; int ex = 0;
    auto fu = tup ? ba::post_future(p, [=] { return ba::all_of(std::make_tuple(src(x, c0, d0), vsrc(pr, c1, d1), src(y, c2, d2))); }) : ba::post_future(p, [=] { return ba::all_of(src(x, c0, d0), vsrc(pr, c1, d1), src(y, c2, d2)); });
    try { r = fu.get(); } catch (my_ex const& e) { ex = e.code; } catch (...) { ex = -1; }
    bool any = t[0] | t[1] | t[2]; if (any) CHECK(ex >= 100 && ex < 103 && t[ex - 100], "all_of: wrong exception"); else CHECK(ex == 0 && std::get<0>(r) == x && std::get<2>(r) == y && ran == 1, "all_of: wrong values"); asym_reach("end");
}
extern "C" void all_of_vector() {
    int n = sym_choice("n", 4); int v[3]; bool t[3]; unsigned d = sym_choice("async", 2); for (int i = 0; i < n; i++) { v[i] = sym_i32("v"); t[i] = sym_flip("throws"); } auto p = order_pool(1); int ex = 0, ran = 0, *pr = &ran; bool any = false; for (int i = 0; i < n; i++) any |= t[i]; std::vector<int> vals(v, v + n); std::vector<int> codes; for (int i = 0; i < n; i++) codes.push_back(t[i] ? 100 + i : 0);
    if (sym_flip("void")) {
        try { auto r = in_pool(p, [=] { std::vector<decltype(vsrc(nullptr, 0, 0))> c; for (size_t i = 0; i < codes.size(); i++) c.push_back(vsrc(pr, codes[i], d)); return ba::all_of(std::move(c)); }); CHECK((int)r.size() == n, "all_of: wrong number"); } catch (my_ex const& e) { ex = e.code; } catch (...) { ex = -1; } if (!any) CHECK(ran == n && ex == 0, "all_of: finished before its continuations");
    } else { std::vector<int> r; try { r = in_pool(p, [=] { std::vector<decltype(src(0, 0, 0))> c; for (size_t i = 0; i < codes.size(); i++) c.push_back(src(vals[i], codes[i], d)); return ba::all_of(std::move(c)); }); } catch (my_ex const& e) { ex = e.code; } catch (...) { ex = -1; } if (!any) CHECK(ex == 0 && same(r, vals), "all_of: wrong values"); }
    if (any) CHECK(ex >= 100 && ex < 100 + n && t[ex - 100], "all_of: wrong exception"); asym_reach("end");
}
static void any_ok(bool threw, size_t idx, int got, int const* v, bool const* t, int n, int ncomb) { bool all = true; for (int i = 0; i < n; i++) all &= t[i]; if (all) { CHECK(threw && ncomb == n, "any_of: all failed but no combined exception"); return; } CHECK(!threw, "any_of: failed although one succeeded"); CHECK(idx < (size_t)n && !t[idx], "any_of: index of one that failed"); CHECK(got == v[idx], "any_of: value of another one"); }
extern "C" void any_of() {
    int v[3]; bool t[3]; unsigned d[3]; for (int i = 0; i < 3; i++) { v[i] = sym_i32("v"); t[i] = sym_flip("throws"); d[i] = sym_choice("async", 2); } auto p = order_pool(1);
    int x = v[0], y = v[1], z = v[2], c0 = t[0] ? 100 : 0, c1 = t[1] ? 101 : 0, c2 = t[2] ? 102 : 0; unsigned d0 = d[0], d1 = d[1], d2 = d[2]; bool threw = false; int nc = 0; size_t idx = 9; int got = 0;
    try { auto r = in_pool(p, [=] { return ba::any_of(src(x, c0, d0), src(y, c1, d1), src(z, c2, d2)); }); idx = r.index(); got = boost::get<int>(r.value()); } catch (ba::combined_exception const& e) { threw = true; nc = e.underlying_exceptions().size(); for (int i = 0; i < nc; i++) { int c = 0; try { std::rethrow_exception(e.underlying_exceptions()[i]); } catch (my_ex const& q) { c = q.code; } CHECK(c == 100 + i, "any_of: combined exception"); } }
    any_ok(threw, idx, got, v, t, 3, nc); asym_reach("end");
}
extern "C" void all_any_conc() {
    int v[2]; bool t[2]; for (int i = 0; i < 2; i++) { v[i] = sym_i32("v"); t[i] = sym_flip("throws"); } auto p = mk_tp(2); asym_window(1); int x = v[0], y = v[1], c0 = t[0] ? 100 : 0, c1 = t[1] ? 101 : 0;
    if (sym_flip("any")) { bool threw = false; int nc = 0; size_t idx = 9; int got = 0; try { auto r = in_pool(p, [=] { return ba::any_of(src(x, c0, 1), src(y, c1, 1)); }); idx = r.index(); got = boost::get<int>(r.value()); } catch (ba::combined_exception const& e) { threw = true; nc = e.underlying_exceptions().size(); } any_ok(threw, idx, got, v, t, 2, nc); }
    else { int ex = 0; std::tuple<int, int> r; try { r = in_pool(p, [=] { return ba::all_of(src(x, c0, 1), src(y, c1, 1)); }); } catch (my_ex const& e) { ex = e.code; } catch (...) { ex = -1; } if (t[0] | t[1]) CHECK(ex >= 100 && ex < 102 && t[ex - 100], "all_of: wrong exception"); else CHECK(ex == 0 && std::get<0>(r) == x && std::get<1>(r) == y, "all_of: wrong values"); }
    asym_reach("end");
}
