//@ cb_args time=300 reach=end,throws,value | create_callback_continuation over separate tasks | 1..4 subtasks, symbolic values and failures, completion orders with up to 2 (thorough 4) deviations from FIFO
//@ cb_vec time=300 reach=end,throws,value | create_callback_continuation over a vector of tasks | 0..4 subtasks
//@ cb_tuple time=300 reach=end,throws,value | create_callback_continuation over a tuple of tasks | 1..3 subtasks
//@ fut_args time=300 reach=end,throws,value | create_continuation over separate tasks | 1..4 subtasks
//@ fut_fut time=300 reach=end,throws,value | create_continuation over futures | 1..3 futures
//@ fut_seq time=300 reach=end,throws,value | create_continuation over a vector of futures | 0..4 futures
//@ job time=300 reach=end,throws,value | the _job versions in a pool with loggable jobs | 3 subtasks, 5 ways
//@ types time=300 | subtasks with different result types (int, void, move-only) | 4 subtasks
//@ subcont time=300 reach=end,throws,value | subtasks which are continuations themselves | 1..3 continuations, one level below
//@ veccont time=300 reach=end,throws,value | a vector of continuations | 0..3 continuations
//@ nested time=300 reach=end,throws,value | the result travels up through nested continuations, callback or future based per level | 2 levels (thorough 3), 2 subtasks each
//@ wrap time=200 reach=end,throws,value | lambdas, functors and ready values as subtasks | 3 subtasks
//@ force time=200 reach=end,throws,value | top_level_callback_continuation_force_post | 2 subtasks
//@ two_cb preempt=1 t.preempt=2 races time=300 reach=end,throws,value | callback based, all interleavings of two workers | 2 workers, 3 subtasks
//@ two_vec preempt=1 t.preempt=2 races time=300 reach=end,throws,value | a vector of tasks, two workers | 2 workers, 3 subtasks
//@ two_tuple preempt=1 t.preempt=2 races time=300 reach=end,throws,value | a tuple of tasks, two workers | 2 workers, 3 subtasks
//@ two_fut preempt=1 t.preempt=2 races time=300 reach=end,throws,value | future based, two workers | 2 workers, 2 subtasks
//@ two_fseq preempt=1 t.preempt=2 races time=300 reach=end,throws,value | a vector of futures, two workers | 2 workers, 2 futures
//@ two_cont preempt=1 t.preempt=1 races time=300 reach=end,throws,value | continuations as subtasks, two workers | 2 workers, 2 continuations
//@ late preempt=1 t.preempt=2 races time=300 | subtasks finished by other threads later | 1 worker, 2 foreign threads
#include "pools.h"
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
static int V[12]; static bool T[12]; static std::atomic<int> ran[12]; static std::atomic<int> ncb{0};
static void inputs(int n, int nt = 99) { for (int i = 0; i < n; i++) { V[i] = sym_i32("value"); T[i] = i < nt && sym_bool("throws"); } }
struct myerr { int i; };
struct sub : ba::continuation_task<int> { int i; sub(int i_) : ba::continuation_task<int>("sub"), i(i_) {} void operator()() { auto r = this->this_task_result(); try { ran[i]++; if (T[i]) throw myerr{i}; r.set_value(V[i]); } catch (...) { r.set_exception(std::current_exception()); } } };
template<class E> void slot(int i, E& e) {
    CHECK(ran[i] == 1, "the continuation ran before a subtask had finished");
    bool th = false; try { int v = e.get(); CHECK(v == V[i], "a slot holds another value"); } catch (myerr& m) { CHECK(m.i == i, "a slot holds another subtask's exception"); th = true; }
    CHECK(th == T[i], "a slot holds a value instead of an exception or the reverse"); if (th) asym_reach("throws"); else asym_reach("value");
}
template<class Tp, size_t... I> void slots(Tp& t, int base, std::index_sequence<I...>) { (slot(base + (int)I, std::get<I>(t)), ...); }
template<class... A> void all(std::tuple<A...>& t, int base = 0) { slots(t, base, std::index_sequence_for<A...>()); }
template<class X> void all(std::vector<X>& v, int base = 0) { for (auto& e : v) slot(base++, e); }
static const int RES = 4711;
// the task which creates the continuation; f(task) does it
template<class F> struct root : ba::continuation_task<int> { F f; root(F f_) : ba::continuation_task<int>("root"), f(std::move(f_)) {} void operator()() { f(this->this_task_result()); } };
template<class F> root<F> mkroot(F f) { return root<F>(std::move(f)); }
template<class R> auto fin(R r, size_t n) { return [r, n](auto t) mutable { CHECK(++ncb == 1, "the continuation's callback ran twice"); if constexpr (requires { t.size(); }) CHECK(t.size() == n, "a continuation lost slots"); all(t); r.set_value(RES); }; }
template<class J = void, class P, class F> void go(P& p, int n, F f) {
    int r; if constexpr (std::is_void_v<J>) r = ba::post_future(p, [f] { return ba::top_level_callback_continuation<int>(mkroot(f)); }).get();
    else r = ba::post_future(p, [f] { return ba::top_level_callback_continuation_job<int, J>(mkroot(f)); }, "root", 0).get();
    CHECK(r == RES, "the task's result is not what its continuation set"); CHECK(ncb == 1, "the continuation's callback did not run exactly once"); for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "a subtask did not run exactly once"); asym_reach("end");
}
static pool_t opool() { return order_pool(TIER ? 4 : 2); }
template<class R> static void cbargs(R r, int n) { switch (n) { case 1: ba::create_callback_continuation(fin(r, 1), sub(0)); break; case 2: ba::create_callback_continuation(fin(r, 2), sub(0), sub(1)); break; case 3: ba::create_callback_continuation(fin(r, 3), sub(0), sub(1), sub(2)); break; default: ba::create_callback_continuation(fin(r, 4), sub(0), sub(1), sub(2), sub(3)); } }
template<class R> static void futargs(R r, int n) { switch (n) { case 1: ba::create_continuation(fin(r, 1), sub(0)); break; case 2: ba::create_continuation(fin(r, 2), sub(0), sub(1)); break; case 3: ba::create_continuation(fin(r, 3), sub(0), sub(1), sub(2)); break; default: ba::create_continuation(fin(r, 4), sub(0), sub(1), sub(2), sub(3)); } }
static std::vector<sub> subs(int n) { std::vector<sub> v; for (int i = 0; i < n; i++) v.emplace_back(i); return v; }
template<class... S> auto exps(S... s) { return ba::detail::make_expected_tuple(s...); }
template<class R> static void cbtuple(R r, int n) {
    switch (n) { case 1: { auto e = exps(sub(0)); ba::create_callback_continuation(fin(r, 1), e, std::make_tuple(sub(0))); break; } case 2: { auto e = exps(sub(0), sub(1)); ba::create_callback_continuation(fin(r, 2), e, std::make_tuple(sub(0), sub(1))); break; }
    default: { auto e = exps(sub(0), sub(1), sub(2)); ba::create_callback_continuation(fin(r, 3), e, std::make_tuple(sub(0), sub(1), sub(2))); } }
}
static int ifn(int i) { ran[i]++; if (T[i]) throw myerr{i}; return V[i]; }
template<class P> std::future<int> ifut(P p, int i) { return ba::post_future(p, [i] { return ifn(i); }); }
template<class P> std::vector<std::future<int>> ifuts(P p, int n) { std::vector<std::future<int>> v; for (int i = 0; i < n; i++) v.push_back(ifut(p, i)); return v; }
extern "C" void cb_args() { int n = 1 + sym_choice("n", 4); inputs(n); pool_t p = opool(); go(p, n, [n](auto r) { cbargs(r, n); }); }
extern "C" void cb_vec() { int n = sym_choice("n", 5); inputs(n); pool_t p = opool(); go(p, n, [n](auto r) { ba::create_callback_continuation(fin(r, n), subs(n)); }); }
extern "C" void cb_tuple() { int n = 1 + sym_choice("n", 3); inputs(n); pool_t p = opool(); go(p, n, [n](auto r) { cbtuple(r, n); }); }
extern "C" void fut_args() { int n = 1 + sym_choice("n", 4); inputs(n); pool_t p = opool(); go(p, n, [n](auto r) { futargs(r, n); }); }
extern "C" void fut_fut() { int n = 1 + sym_choice("n", 3); inputs(n); pool_t p = opool(); auto w = p.get_weak_scheduler(); go(p, n, [n, w](auto r) { auto q = w.lock(); switch (n) { case 1: ba::create_continuation(fin(r, 1), ifut(q, 0)); break; case 2: { auto a = ifut(q, 0), b = ifut(q, 1); ba::create_continuation(fin(r, 2), std::move(a), std::move(b)); break; } default: { auto a = ifut(q, 0), b = ifut(q, 1), c = ifut(q, 2); ba::create_continuation(fin(r, 3), std::move(a), std::move(b), std::move(c)); } } }); }
extern "C" void fut_seq() { int n = sym_choice("n", 5); inputs(n); pool_t p = opool(); auto w = p.get_weak_scheduler(); go(p, n, [n, w](auto r) { auto q = w.lock(); ba::create_continuation(fin(r, n), ifuts(q, n)); }); }
extern "C" void job() {
    typedef ba::any_loggable J; inputs(3); auto p = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<symq<J>>>(1); symq_budget = TIER ? 3 : 1; int how = sym_choice("how", 5); auto w = p.get_weak_scheduler();
    go<J>(p, 3, [how, w](auto r) { auto q = w.lock();
        switch (how) { case 0: ba::create_callback_continuation_job<J>(fin(r, 3), sub(0), sub(1), sub(2)); break; case 1: ba::create_callback_continuation_job<J>(fin(r, 3), subs(3)); break;
        case 2: { auto e = exps(sub(0), sub(1), sub(2)); ba::create_callback_continuation_job<J>(fin(r, 3), e, std::make_tuple(sub(0), sub(1), sub(2))); break; }
        case 3: ba::create_continuation_job<J>(fin(r, 3), sub(0), sub(1), sub(2)); break; case 4: { std::vector<std::future<int>> v; for (int i = 0; i < 3; i++) v.push_back(ba::post_future(q, [i] { return ifn(i); }, "f", 0)); ba::create_continuation_job<J>(fin(r, 3), std::move(v)); } } });
}
struct vsub : ba::continuation_task<void> { int i; vsub(int i_) : ba::continuation_task<void>("vsub"), i(i_) {} void operator()() { auto r = this->this_task_result(); try { ran[i]++; if (T[i]) throw myerr{i}; r.set_value(); } catch (...) { r.set_exception(std::current_exception()); } } };
struct msub : ba::continuation_task<std::unique_ptr<int>> { int i; msub(int i_) : ba::continuation_task<std::unique_ptr<int>>("msub"), i(i_) {} void operator()() { auto r = this->this_task_result(); try { ran[i]++; if (T[i]) throw myerr{i}; r.set_value(std::make_unique<int>(V[i])); } catch (...) { r.set_exception(std::current_exception()); } } };
template<class E> static void vslot(int i, E& e) { bool th = false; try { e.get(); } catch (myerr& m) { th = m.i == i; CHECK(th, "another exception"); } CHECK(th == T[i] && ran[i] == 1, "wrong outcome of a void subtask"); }
template<class E> static void mslot(int i, E& e) { bool th = false; try { std::unique_ptr<int> u = std::move(e.get()); CHECK(u && *u == V[i], "wrong value of a move-only subtask"); } catch (myerr& m) { th = m.i == i; CHECK(th, "another exception"); } CHECK(th == T[i] && ran[i] == 1, "wrong outcome of a subtask"); }
extern "C" void types() { inputs(4); pool_t p = opool(); bool fu = sym_choice("future based", 2);
    go(p, 4, [fu](auto r) { auto cb = [r](auto t) mutable { CHECK(++ncb == 1, "the continuation's callback ran twice"); slot(0, std::get<0>(t)); vslot(1, std::get<1>(t)); mslot(2, std::get<2>(t)); vslot(3, std::get<3>(t)); r.set_value(RES); }; if (fu) ba::create_continuation(cb, sub(0), vsub(1), msub(2), vsub(3)); else ba::create_callback_continuation(cb, sub(0), vsub(1), msub(2), vsub(3)); }); }
// a continuation over one subtask
static auto cont(int i) { return ba::top_level_callback_continuation<int>(sub(i)); }
extern "C" void subcont() { int n = 1 + sym_choice("n", 3); inputs(n); pool_t p = opool(); go(p, n, [n](auto r) { switch (n) { case 1: ba::create_callback_continuation(fin(r, 1), cont(0)); break; case 2: if (sym_choice("mixed", 2)) ba::create_callback_continuation(fin(r, 2), sub(0), cont(1)); else ba::create_callback_continuation(fin(r, 2), cont(0), cont(1)); break; default: ba::create_callback_continuation(fin(r, 3), cont(0), sub(1), cont(2)); } }); }
static std::vector<decltype(cont(0))> conts(int n) { std::vector<decltype(cont(0))> v; for (int i = 0; i < n; i++) v.push_back(cont(i)); return v; }
extern "C" void veccont() { int n = sym_choice("n", 4); inputs(n); pool_t p = opool(); go(p, n, [n](auto r) { ba::create_callback_continuation(fin(r, n), conts(n)); }); }
// nesting: node k has children 2k and 2k+1, the leaves are 0..; the value of a node is 3*left+right
static int fut_levels = 0, depth = 2;
struct nodet : ba::continuation_task<int> { int d, i; nodet(int d_, int i_) : ba::continuation_task<int>("node"), d(d_), i(i_) {}
    void operator()() { auto r = this->this_task_result();
        if (d == 0) { try { r.set_value(ifn(i)); } catch (...) { r.set_exception(std::current_exception()); } return; }
        auto done = [r, once = std::make_shared<int>(0)](auto t) mutable { CHECK(++*once == 1, "a nested callback ran twice"); try { int a = std::get<0>(t).get(), b = std::get<1>(t).get(); r.set_value(int(3u * (unsigned)a + (unsigned)b)); } catch (...) { r.set_exception(std::current_exception()); } };
        if (fut_levels >> d & 1) ba::create_continuation(done, nodet(d - 1, 2 * i), nodet(d - 1, 2 * i + 1)); else ba::create_callback_continuation(done, nodet(d - 1, 2 * i), nodet(d - 1, 2 * i + 1)); } };
static unsigned expect_(int d, int i) { return d == 0 ? (unsigned)V[i] : 3u * expect_(d - 1, 2 * i) + expect_(d - 1, 2 * i + 1); }
extern "C" void nested() { depth = TIER ? 3 : 2; int n = 1 << depth; inputs(n, 2); fut_levels = sym_choice("future levels", 1 << depth) << 1; pool_t p = order_pool(1); bool th = false; int first = -1, r = 0; int d = depth;
    try { r = ba::post_future(p, [d] { return ba::top_level_callback_continuation<int>(nodet(d, 0)); }).get(); } catch (myerr& m) { th = true; first = m.i; }
    bool any = false; int f = -1; for (int i = n - 1; i >= 0; i--) if (T[i]) { any = true; f = i; } CHECK(th == any, "a nested failure was lost or invented"); if (any) { CHECK(first == f, "another exception arrived"); asym_reach("throws"); } else { CHECK((unsigned)r == expect_(depth, 0), "the nested result is wrong"); asym_reach("value"); } for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "a subtask did not run exactly once"); asym_reach("end"); }
extern "C" void wrap() { inputs(3, 2); pool_t p = opool(); ran[2] = 1; go(p, 2, [](auto r) { auto t0 = ba::make_lambda_continuation_wrapper([] { return ifn(0); }, "l"); auto t1 = ba::to_continuation_task([] { return ifn(1); }); auto t2 = ba::make_ready_continuation<int>(V[2]); switch (sym_choice("order", 2)) { case 0: ba::create_callback_continuation(fin(r, 3), std::move(t0), std::move(t1), std::move(t2)); break; default: { auto cb = [f = fin(r, 3)](auto t) mutable { f(std::make_tuple(std::get<1>(t), std::get<2>(t), std::get<0>(t))); }; ba::create_callback_continuation(cb, std::move(t2), std::move(t0), std::move(t1)); } } }); }
extern "C" void force() { inputs(2); pool_t p = opool(); int r = ba::post_future(p, [] { return ba::top_level_callback_continuation_force_post<int>(mkroot([](auto r) { cbargs(r, 2); })); }).get(); CHECK(r == RES && ncb == 1, "force_post lost the result"); asym_reach("end"); }
template<class F> static void two(int n, F f) { inputs(n); pool_t p = mk_tp(2); { asym_window(1); pool_t q = std::move(p); go(q, n, f); } asym_window(0); CHECK(ncb == 1, "callback"); }
extern "C" void two_cb() { two(3, [](auto r) { cbargs(r, 3); }); }
extern "C" void two_vec() { two(3, [](auto r) { ba::create_callback_continuation(fin(r, 3), subs(3)); }); }
extern "C" void two_tuple() { two(3, [](auto r) { cbtuple(r, 3); }); }
extern "C" void two_fut() { two(2, [](auto r) { futargs(r, 2); }); }
extern "C" void two_fseq() { inputs(2); pool_t p = mk_tp(2); { asym_window(1); pool_t q = std::move(p); auto w = q.get_weak_scheduler(); go(q, 2, [w](auto r) { auto x = w.lock(); ba::create_continuation(fin(r, 2), ifuts(x, 2)); }); } asym_window(0); }
extern "C" void two_cont() { two(2, [](auto r) { ba::create_callback_continuation(fin(r, 2), cont(0), cont(1)); }); }
// subtasks whose results are set by other threads after the task itself has returned
static boost::thread th_[2];
struct lsub : ba::continuation_task<int> { int i; lsub(int i_) : ba::continuation_task<int>("lsub"), i(i_) {} void operator()() { auto r = this->this_task_result(); int k = i; th_[i] = boost::thread([r, k]() mutable { ran[k]++; if (T[k]) r.set_exception(std::make_exception_ptr(myerr{k})); else r.set_value(V[k]); }); } };
extern "C" void late() { inputs(2, 1); bool fu = sym_choice("future based", 2); pool_t p = mk_tp(1); { asym_window(1); pool_t q = std::move(p); go(q, 2, [fu](auto r) { if (fu) ba::create_continuation(fin(r, 2), lsub(0), lsub(1)); else ba::create_callback_continuation(fin(r, 2), lsub(0), lsub(1)); }); th_[0].join(); th_[1].join(); } asym_window(0); }
