//@ plain | value, void and move-only results, throwing or not, any posting overload | symbolic value, 3 result types, 5 exception kinds, from outside or from a task
//@ cont | tasks returning continuations (callback and future based, nested): value or the exception thrown while creating, in the subtask, or in the callback | symbolic value, depth 0..2, 6 failure places
//@ contvoid | the same for void continuations | depth 0..2, 5 failure places
//@ ready preempt=1 t.preempt=3 time=200 | a future becomes ready only when its task has finished | 1 task on 1 worker, a waiter, 1 (thorough 3) preemptions
//@ readycont preempt=1 t.preempt=2 time=200 | a future becomes ready only when every subtask has finished | 2 subtasks, 2 workers
//@ cross preempt=1 t.preempt=2 time=200 | two posters, two workers: each future gets its own task's outcome | 2 threads x 1 task, symbolic values and throw flags
//@ interruptible | interruptible_post_future without an interruption delivers the same | symbolic value, throwing or not, value, void and continuation
//@ logged | the same outcomes with loggable jobs | symbolic value, throwing or not
//@ serial | a serializable task executed locally delivers its own outcome | value, void and continuation, throwing or not
//@ dropped | a task destroyed without being run breaks its promise instead of leaving the future hanging | 1 task
#include "pools.h"
#include <boost/asynchronous/any_serializable.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
struct mo { int v = 0; mo() {} explicit mo(int x) : v(x) {} mo(mo&& o) noexcept : v(o.v) { o.v = -1; } mo& operator=(mo&& o) noexcept { v = o.v; o.v = -1; return *this; } mo(mo const&) = delete; mo& operator=(mo const&) = delete; };
static std::atomic<int> runs{0};
struct other { int v; };
static void maybe(int kind, int x) {
    switch (kind) { case 1: throw std::runtime_error("task"); case 2: throw other{x}; case 3: throw x; case 4: throw boost::thread_interrupted(); case 5: throw ba::task_aborted_exception(); }
}
// what get() gives
enum { VAL = 0 };
template<class Fu> struct outcome { int kind = -1; int v = 0; };
template<class Get> static int kind_of(Get g, int& v, const char*& what) {
    try { v = g(); return 0; } catch (ba::task_aborted_exception&) { return 5; } catch (std::runtime_error& e) { what = strcmp(e.what(), "task") ? "?" : "task"; return 1; } catch (other& o) { v = o.v; return 2; } catch (int i) { v = i; return 3; } catch (boost::thread_interrupted&) { return 4; } catch (std::future_error&) { return 6; } catch (...) { return 7; }
}
template<class Get> static void expect(Get g, int kind, int x, const char* w) {
    int v = 0; const char* what = "task"; int k = kind_of(g, v, what); if (kind == 4) kind = 5;
    CHECK(k == kind, w); if (k == 0 || k == 2 || k == 3) CHECK(v == x, w); CHECK(!strcmp(what, "task"), w); CHECK(runs == 1, "post_future: the task did not run exactly once");
}
static int val(mo m) { return m.v; } static int val(int i) { return i; }
template<class F> static void from(pool_t& p, F f) { if (sym_choice("inside", 2)) { bool ok = false; ba::post_future(p, [&] { f(p); ok = true; }).get(); CHECK(ok, "outer task"); } else f(p); }
extern "C" void plain() {
    pool_t p = mk_tp(2); int x = sym_i32("x"), kind = sym_choice("throws", 6), type = sym_choice("type", 3), how = sym_choice("how", 3);
    from(p, [&](pool_t& p) {
        if (type == 0) { auto f = [x, kind] { runs++; maybe(kind, x); return x; }; auto fu = how == 0 ? ba::post_future(p, f) : how == 1 ? ba::post_future(p, f, "name", 0) : ba::post_future(p.get_weak_scheduler().lock(), f); expect([&] { return fu.get(); }, kind, x, "post_future: wrong outcome"); CHECK(!fu.valid(), "future still valid"); }
        if (type == 1) { auto f = [x, kind] { runs++; maybe(kind, x); }; auto fu = how == 0 ? ba::post_future(p, f) : how == 1 ? ba::post_future(p, f, "name", 0) : ba::post_future(p.get_weak_scheduler().lock(), f); expect([&] { fu.get(); return x; }, kind, x, "post_future(void): wrong outcome"); }
        if (type == 2) { mo m(x); auto f = [m = std::move(m), kind, x]() mutable { runs++; maybe(kind, x); return std::move(m); }; auto fu = how == 0 ? ba::post_future(p, std::move(f)) : how == 1 ? ba::post_future(p, std::move(f), "name", 0) : ba::post_future(p.get_weak_scheduler().lock(), std::move(f)); expect([&] { return fu.get().v; }, kind, x, "post_future(move-only): wrong outcome"); }
    });
    asym_reach("end");
}
// a continuation task that may fail in the ways a task can
template<class R> struct leaf : ba::continuation_task<R> { int x, k; leaf(int x_, int k_) : ba::continuation_task<R>("leaf"), x(x_), k(k_) {}
    void operator()() { auto r = this->this_task_result(); runs++; try { maybe(k, x); if constexpr (std::is_void_v<R>) r.set_value(); else r.set_value(x); } catch (...) { r.set_exception(std::current_exception()); } } };
template<class R, bool CB> struct node : ba::continuation_task<R> { int x, k, d, cbk; node(int x_, int k_, int d_, int c) : ba::continuation_task<R>("node"), x(x_), k(k_), d(d_), cbk(c) {}
    void operator()() {
        auto r = this->this_task_result(); int xx = x, c = cbk;
        try {
            if (d == 0) { leaf<R> l(x, k); l.get_promise() = this->get_promise(); if constexpr (CB) ba::create_callback_continuation([r, c, xx](auto t) mutable { done(r, c, xx, std::get<0>(t)); }, leaf<R>(x, k)); else ba::create_continuation([r, c, xx](auto t) mutable { donef(r, c, xx, std::get<0>(t)); }, leaf<R>(x, k)); return; }
            if constexpr (CB) ba::create_callback_continuation([r, c, xx](auto t) mutable { done(r, c, xx, std::get<0>(t)); }, node<R, CB>(x, k, d - 1, 0)); else ba::create_continuation([r, c, xx](auto t) mutable { donef(r, c, xx, std::get<0>(t)); }, node<R, CB>(x, k, d - 1, 0));
        } catch (...) { r.set_exception(std::current_exception()); }
    }
    template<class Q, class T> static void done(Q& r, int c, int x, T& e) { try { maybe(c, x); if constexpr (std::is_void_v<R>) { e.get(); r.set_value(); } else r.set_value(e.get()); } catch (...) { r.set_exception(std::current_exception()); } }
    template<class Q, class T> static void donef(Q& r, int c, int x, T& e) { done(r, c, x, e); }
};
template<class R> static void cont_() {
    pool_t p = order_pool(1); int x = sym_i32("x"), place = sym_choice("place", 4), kind = place ? 1 + sym_choice("kind", 3) : 0, d = sym_choice("depth", TIER ? 3 : 2); bool cb = sym_choice("callback", 2);
    int kc = place == 1 ? kind : 0, kl = place == 2 ? kind : 0, kb = place == 3 ? kind : 0; if (place == 1) runs = 1;
    auto get = [&](auto fu) { expect([&] { if constexpr (std::is_void_v<R>) { fu.get(); return x; } else return fu.get(); }, kind, x, "post_future of a continuation: wrong outcome"); };
    from(p, [&](pool_t& pp) { pool_t q = &pp == &p ? p : p; (void)q; });
    if (cb) get(ba::post_future(p, [=] { maybe(kc, x); return ba::top_level_callback_continuation<R>(node<R, true>(x, kl, d, kb)); }));
    else get(ba::post_future(p, [=] { maybe(kc, x); return ba::top_level_continuation<R>(node<R, false>(x, kl, d, kb)); }));
    asym_reach("end");
}
extern "C" void cont() { cont_<int>(); }
extern "C" void contvoid() { cont_<void>(); }
static int done1 = 0, done2 = 0;
extern "C" void ready() {
    pool_t p = mk_tp(1); int x = sym_i32("x"); asym_window(1); bool thr = sym_choice("throws", 2); auto fu = ba::post_future(p, [x, thr] { boost::this_thread::yield(); done1 = 1; if (thr) throw x; return x; });
    bool was = fu.wait_for(std::chrono::seconds(0)) == std::future_status::ready; if (was) CHECK(done1 == 1, "a future was ready before its task had finished");
    int v = 0; try { v = fu.get(); CHECK(!thr, "outcome"); } catch (int i) { v = i; CHECK(thr, "outcome"); } CHECK(done1 == 1 && v == x, "a future was ready before its task had finished"); asym_window(0); asym_reach("end");
}
struct sub : ba::continuation_task<int> { int i, x; sub(int i_, int x_) : ba::continuation_task<int>("sub"), i(i_), x(x_) {} void operator()() { auto r = this_task_result(); boost::this_thread::yield(); (i ? done2 : done1) = 1; r.set_value(x); } };
extern "C" void readycont() {
    pool_t p = mk_tp(2); int x = sym_i32("x"), y = sym_i32("y"); asym_window(1);
    auto fu = ba::post_future(p, [x, y] { return ba::top_level_callback_continuation<int>(ba::make_lambda_continuation_wrapper([] { return 0; }, "")), ba::top_level_callback_continuation<int>([&] {
        struct t : ba::continuation_task<int> { int x, y; t(int a, int b) : ba::continuation_task<int>("t"), x(a), y(b) {} void operator()() { auto r = this_task_result(); ba::create_callback_continuation([r](auto e) mutable { r.set_value(std::get<0>(e).get() ^ std::get<1>(e).get()); }, sub(0, x), sub(1, y)); } }; return t(x, y); }()); });
    int v = fu.get(); CHECK(done1 == 1 && done2 == 1, "a future was ready before its subtasks had finished"); CHECK(v == (x ^ y), "post_future of a continuation: wrong value"); asym_window(0); asym_reach("end");
}
extern "C" void cross() {
    pool_t p = mk_tp(2); int x = sym_i32("x"), y = sym_i32("y"); bool tx = sym_choice("tx", 2), ty = sym_choice("ty", 2); asym_window(1);
    auto one = [](pool_t& p, int x, bool t) { auto fu = ba::post_future(p, [x, t] { if (t) throw x; return x; }); int v = ~x; bool c = false; try { v = fu.get(); } catch (int i) { v = i; c = true; } CHECK(v == x && c == t, "a future got another task's outcome"); };
    boost::thread th([&] { one(p, y, ty); }); one(p, x, tx); th.join(); asym_window(0); asym_reach("end");
}
extern "C" void interruptible() {
    pool_t p = mk_tp(1); int x = sym_i32("x"), kind = sym_choice("throws", 4);
    switch (sym_choice("type", 3)) {
        case 0: { auto t = ba::interruptible_post_future(p, [x, kind] { runs++; maybe(kind, x); return x; }); expect([&] { return std::get<0>(t).get(); }, kind, x, "interruptible_post_future: wrong outcome"); break; }
        case 1: { auto t = ba::interruptible_post_future(p, [x, kind] { runs++; maybe(kind, x); }); expect([&] { std::get<0>(t).get(); return x; }, kind, x, "interruptible_post_future(void): wrong outcome"); break; }
        case 2: { auto t = ba::interruptible_post_future(p, [x, kind] { return ba::top_level_callback_continuation<int>(node<int, true>(x, kind, 0, 0)); }); expect([&] { return std::get<0>(t).get(); }, kind, x, "interruptible_post_future(continuation): wrong outcome"); break; }
    }
    asym_reach("end");
}
typedef ba::any_loggable ljob;
extern "C" void logged() {
    auto p = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<ljob>, nosave>>(1); int x = sym_i32("x"), kind = sym_choice("throws", 4);
    switch (sym_choice("type", 4)) {
        case 0: { auto fu = ba::post_future(p, [x, kind] { runs++; maybe(kind, x); return x; }, "n", 0); expect([&] { return fu.get(); }, kind, x, "post_future(logged): wrong outcome"); break; }
        case 1: { auto fu = ba::post_future(p, [x, kind] { runs++; maybe(kind, x); }, "n", 0); expect([&] { fu.get(); return x; }, kind, x, "post_future(logged void): wrong outcome"); break; }
        case 2: { auto fu = ba::post_future(p, [x, kind] { return ba::top_level_callback_continuation_job<int, ljob>(leaf<int>(x, kind)); }, "n", 0); expect([&] { return fu.get(); }, kind, x, "post_future(logged continuation): wrong outcome"); break; }
        case 3: { auto fu = ba::post_future(p, [x, kind] { return ba::top_level_callback_continuation_job<void, ljob>(leaf<void>(x, kind)); }, "n", 0); expect([&] { fu.get(); return x; }, kind, x, "post_future(logged void continuation): wrong outcome"); break; }
    }
    asym_reach("end");
}
struct ser { typedef int serializable_type; int x, kind; ser(int a, int b) : x(a), kind(b) {} template<class A> void serialize(A&, const unsigned int) {} std::string get_task_name() const { return "ser"; } int operator()() const { runs++; maybe(kind, x); return x; } };
struct serv { typedef int serializable_type; int x, kind; serv(int a, int b) : x(a), kind(b) {} template<class A> void serialize(A&, const unsigned int) {} std::string get_task_name() const { return "serv"; } void operator()() const { runs++; maybe(kind, x); } };
struct serc { typedef int serializable_type; int x, kind; serc(int a, int b) : x(a), kind(b) {} template<class A> void serialize(A&, const unsigned int) {} std::string get_task_name() const { return "serc"; } auto operator()() const { return ba::top_level_callback_continuation<int>(leaf<int>(x, kind)); } };
extern "C" void serial() {
    pool_t p = mk_tp(1); int x = sym_i32("x"), kind = sym_choice("throws", 4);
    switch (sym_choice("type", 3)) {
        case 0: { auto fu = ba::post_future(p, ser(x, kind)); expect([&] { return fu.get(); }, kind, x, "post_future(serializable): wrong outcome"); break; }
        case 1: { auto fu = ba::post_future(p, serv(x, kind)); expect([&] { fu.get(); return x; }, kind, x, "post_future(serializable void): wrong outcome"); break; }
        case 2: { auto fu = ba::post_future(p, serc(x, kind)); expect([&] { return fu.get(); }, kind, x, "post_future(serializable continuation): wrong outcome"); break; }
    }
    asym_reach("end");
}
struct eat { typedef ba::any_callable job_type; void post(ba::any_callable&&, std::size_t) const {} };
extern "C" void dropped() { eat e; int x = sym_i32("x"); auto fu = ba::post_future(e, [x] { runs++; return x; }); runs = 1; expect([&] { return fu.get(); }, 6, x, "a dropped task leaves its future waiting"); asym_reach("end"); }
