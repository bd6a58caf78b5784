//@ raw preempt=2 t.preempt=3 races time=300 reach=end,never,running,completed | one interrupt of a plain interruptible task at any moment; a later task on the same thread is untouched | threadpool, 1 worker, 2 tasks
//@ twice preempt=2 t.preempt=3 races time=300 reach=end,never,running | two interrupts from two threads | threadpool, 1 worker, 2 tasks
//@ gone preempt=2 t.preempt=3 races time=300 reach=end,never,running | interrupt, then the pool shuts down with a task still queued | 1 worker, 2 tasks
//@ self preempt=2 t.preempt=3 time=200 | a task interrupts itself and its successor | 1 worker, 3 tasks
//@ later preempt=2 t.preempt=3 time=300 | after an interrupted task the same thread's continuations still work | 1 worker, an interrupted task, then a continuation with 2 subtasks
//@ user preempt=1 t.preempt=2 time=200 | a task which throws thread_interrupted itself, then an interrupt: the thread's next tasks are untouched | 1 worker, 3 tasks
//@ future preempt=1 t.preempt=2 time=300 reach=end,never,running | interruptible_post_future: value or an exception, never a hang | 1 worker, symbolic value
//@ callback preempt=1 t.preempt=2 time=300 | interruptible_post_callback of a servant: callback at most once, in the servant's thread | 1 worker, 2 tasks
//@ self_post preempt=2 t.preempt=3 time=300 | interruptible_post_self | single thread, 2 tasks
//@ cont preempt=2 t.preempt=3 time=300 reach=end,value,except | a continuation with 2 subtasks interrupted at any moment: the future becomes ready | 1 worker, 2 subtasks
//@ cont2 preempt=1 t.preempt=2 time=300 | the same with 2 workers | 2 workers, 2 subtasks
//@ subs preempt=1 t.preempt=2 time=300 | a subtask which starts when interrupt() has returned is interrupted | 2 workers, 2 subtasks
//@ subs_q preempt=0 t.preempt=1 time=300 | subtasks which have not started when interrupt() returns never run, the running one is interrupted | 1 worker, 3 subtasks, 3 kinds of continuation
//@ nested preempt=1 t.preempt=1 timeouts time=300 reach=end | a nested future-based continuation interrupted while its leaf runs: the future becomes ready | 2 workers, 2 levels
//@ contseq preempt=2 t.preempt=3 time=300 | a continuation over a sequence of subtasks | 1 worker, 2 subtasks
//@ contfut preempt=2 t.preempt=3 time=300 | a future-based continuation | 1 worker, 2 subtasks
//@ mq preempt=2 t.preempt=3 time=200 reach=end,never,running | multiqueue_threadpool_scheduler | 1 worker
//@ single preempt=2 t.preempt=3 time=200 reach=end,never,running | single_thread_scheduler | 1 worker
//@ mt preempt=2 t.preempt=3 time=200 reach=end,never,running | multiple_thread_scheduler | 1 worker, 1 client
//@ io preempt=1 t.preempt=2 time=200 reach=end,never,running | io_threadpool_scheduler | 1..2 workers
//@ st preempt=2 t.preempt=3 time=200 reach=end,never,running | stealing_threadpool_scheduler | 1 worker
//@ smq preempt=2 t.preempt=3 time=200 reach=end,never,running | stealing_multiqueue_threadpool_scheduler | 1 worker
//@ comp preempt=1 t.preempt=2 time=200 reach=end,never,running | composite of two pools, symbolic sub-pool | 2 workers
//@ logged preempt=1 t.preempt=2 time=200 reach=end,never,running | loggable jobs | 1 worker
#include "pools.h"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
static std::atomic<int> returned{0}, started{0}, finished{0}; static int nint = 0, nrun = 0; static bool late = false;
static bool ip() { try { boost::this_thread::interruption_point(); return false; } catch (boost::thread_interrupted&) { return true; } }
// the interruptible body: it watches what happens at its interruption points
static bool waits = false;
static void body(bool rethrow) {
    nrun++; started = 1; bool r0 = returned;
    bool i1 = ip(); if (i1) nint++; if (r0) CHECK(i1, "a task which was interrupted before it ran misses its interruption");
    if (waits) while (!returned) boost::this_thread::yield();
    bool r = returned; bool i2 = ip(); if (i2) nint++;
    if (r) { CHECK(nint >= 1, "a running task missed its interruption"); asym_reach("running"); }
    CHECK(nint <= 1, "a task was interrupted twice"); if (rethrow && nint) throw boost::thread_interrupted();
    finished = 1;
}
static int other_runs = 0; static std::atomic<int> other_done{0};
static void other() { other_runs++; CHECK(!boost::this_thread::interruption_requested(), "another task saw an interruption request"); CHECK(!ip(), "another task was interrupted"); other_done++; }
static void fire(ba::any_interruptible& i) { bool s = started, f = finished; i.interrupt(); if (f) asym_reach("completed"); (void)s; returned = 1; }
static void verdict(int others) { CHECK(nrun <= 1, "a task ran twice"); if (!nrun) asym_reach("never"); CHECK(other_runs == others, "another task did not run exactly once"); asym_reach("end"); }
template<class P> static void plain(P p, size_t pr = 0) {
    bool rethrow = sym_choice("lets it escape", 2); waits = sym_choice("waits for the interruption", 2);
    { asym_window(1); P q = std::move(p); auto i = q.interruptible_post([rethrow] { body(rethrow); }, pr); std::promise<void> d; auto f = d.get_future(); fire(i); q.post([&d] { other(); d.set_value(); }, pr); f.get(); }
    asym_window(0); verdict(1);
}
extern "C" void raw() { plain(mk_tp(1)); }
extern "C" void mq() { plain(mk_mq(1)); }
extern "C" void single() { plain(mk_single()); }
extern "C" void mt() { plain(mk_mt(1, 1)); }
extern "C" void io() { plain(mk_io(1, 2)); }
extern "C" void st() { plain(mk_st(1)); }
extern "C" void smq() { plain(mk_smq(1)); }
extern "C" void comp() { plain(mk_comp(mk_tp(1), mk_mq(1)), 1 + sym_choice("sub-pool", 2)); }
extern "C" void logged() {
    auto p = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<ba::any_loggable>, nosave>>(1); bool rethrow = sym_choice("lets it escape", 2);
    waits = sym_choice("waits for the interruption", 2); { asym_window(1); auto q = std::move(p); auto t = ba::interruptible_post_future(q, [rethrow] { body(rethrow); }, "a", 0); fire(std::get<1>(t)); ba::post_future(q, [] { other(); }, "b", 0).get(); }
    asym_window(0); verdict(1);
}
extern "C" void twice() {
    pool_t p = mk_tp(1); waits = sym_choice("waits for the interruption", 2); { asym_window(1); pool_t q = std::move(p); auto i = q.interruptible_post([] { body(true); }); boost::thread t([i]() mutable { i.interrupt(); }); fire(i); t.join(); std::promise<void> d; auto f = d.get_future(); q.post([&d] { other(); d.set_value(); }); f.get(); }
    asym_window(0); verdict(1);
}
extern "C" void gone() {
    pool_t p = mk_tp(1); bool rethrow = sym_choice("lets it escape", 2);
    waits = sym_choice("waits for the interruption", 2); { asym_window(1); pool_t q = std::move(p); auto i = q.interruptible_post([rethrow] { body(rethrow); }); q.post([] { other(); }); fire(i); }
    asym_window(0); verdict(1);
}
static ba::any_interruptible I0, I1;
extern "C" void self() {
    pool_t p = mk_tp(1); std::atomic<bool> go{false}; bool got = false, ran1 = false; std::promise<void> d; auto f = d.get_future();
    { asym_window(1); pool_t q = std::move(p); I0 = q.interruptible_post([&] { while (!go) boost::this_thread::yield(); I1.interrupt(); I0.interrupt(); got = ip(); CHECK(!ip(), "interrupted twice"); I0.interrupt(); CHECK(!ip(), "interrupted twice"); });
      I1 = q.interruptible_post([&] { ran1 = true; }); q.post([&] { other(); d.set_value(); }); go = true; f.get(); }
    asym_window(0); CHECK(got, "a task which interrupts itself misses the interruption"); CHECK(!ran1, "a task ran after it was interrupted"); CHECK(other_runs == 1, "another task did not run exactly once"); asym_reach("end");
}
struct leaf : ba::continuation_task<int> { int v; leaf(int x) : ba::continuation_task<int>("leaf"), v(x) {} void operator()() { auto r = this->this_task_result(); try { CHECK(!ip(), "another task was interrupted"); r.set_value(v); } catch (...) { r.set_exception(std::current_exception()); } } };
struct top : ba::continuation_task<int> { int a, b; top(int x, int y) : ba::continuation_task<int>("top"), a(x), b(y) {} void operator()() { auto r = this->this_task_result(); ba::create_callback_continuation([r](std::tuple<ba::expected<int>, ba::expected<int>> t) mutable { try { r.set_value(std::get<0>(t).get() ^ std::get<1>(t).get()); } catch (...) { r.set_exception(std::current_exception()); } }, leaf(a), leaf(b)); } };
static void later_(pool_t& q) { int a = sym_i32("a"), b = sym_i32("b"); auto f = ba::post_future(q, [a, b] { return ba::top_level_callback_continuation<int>(top(a, b)); }); CHECK(f.get() == (a ^ b), "a later continuation got a wrong value"); other_runs++; }
extern "C" void later() {
    pool_t p = mk_tp(1); bool how = sym_choice("as future", 2);
    { asym_window(1); pool_t q = std::move(p); if (how) { auto t = ba::interruptible_post_future(q, [] { body(true); }); fire(std::get<1>(t)); try { std::get<0>(t).get(); } catch (...) {} } else { auto i = q.interruptible_post([] { body(true); }); fire(i); } later_(q); }
    asym_window(0); verdict(1);
}
extern "C" void user() {
    pool_t p = mk_tp(1); bool how = sym_choice("as future", 2); std::atomic<bool> go{false}; std::promise<void> d; auto f = d.get_future();
    { asym_window(1); pool_t q = std::move(p); ba::any_interruptible i; if (how) { auto t = ba::interruptible_post_future(q, [] { nrun++; throw boost::thread_interrupted(); }); i = std::get<1>(t); try { std::get<0>(t).get(); } catch (ba::task_aborted_exception&) {} } else i = q.interruptible_post([] { nrun++; throw boost::thread_interrupted(); });
      q.post([&] { while (!go) boost::this_thread::yield(); other(); d.set_value(); }); if (sym_choice("waits", 2)) { auto g = ba::post_future(q, [] {}); go = true; g.get(); i.interrupt(); } else { i.interrupt(); go = true; } f.get(); later_(q); }
    asym_window(0); verdict(2);
}
extern "C" void future() {
    pool_t p = mk_tp(1); int v = sym_i32("v"); bool rethrow = sym_choice("lets it escape", 2), val = false;
    waits = sym_choice("waits for the interruption", 2); { asym_window(1); pool_t q = std::move(p); auto t = ba::interruptible_post_future(q, [v, rethrow] { body(rethrow); return v; }); fire(std::get<1>(t));
      std::promise<void> d; auto f = d.get_future(); q.post([&d] { other(); d.set_value(); });
      try { int g = std::get<0>(t).get(); CHECK(g == v, "a wrong value"); val = true; } catch (ba::task_aborted_exception&) { CHECK(nrun && nint && rethrow, "aborted without an interruption"); } catch (std::future_error&) { CHECK(!nrun, "a task which ran broke its promise"); }
      CHECK(val == (nrun && !(rethrow && nint)), "a completed task did not deliver its value"); f.get(); }
    asym_window(0); verdict(1);
}
struct serv : ba::trackable_servant<> { serv(ba::any_weak_scheduler<> s, pool_t w) : ba::trackable_servant<>(s, w) {} template<class F> auto run(F f) { return f(*this); } };
struct prox : ba::servant_proxy<prox, serv> { prox(pool_t s, pool_t w) : ba::servant_proxy<prox, serv>(s, w) {} BOOST_ASYNC_FUTURE_MEMBER(run) };
extern "C" void callback() {
    pool_t s = mk_single(), w = mk_tp(1); auto sid = s.thread_ids(); int cb = 0, ex = 0; int v = sym_i32("v"); std::promise<void> d; auto f = d.get_future();
    { asym_window(1); pool_t a = std::move(s), b = std::move(w); prox x(a, b); a = pool_t(); b = pool_t();
      auto i = x.run([&](serv& z) { return z.interruptible_post_callback([v] { body(true); return v; }, [&](ba::expected<int> e) { CHECK(boost::this_thread::get_id() == sid[0], "callback in another thread"); cb++; ex = e.has_exception(); if (!ex) CHECK(e.get() == v, "wrong value"); CHECK(!ip(), "the callback was interrupted"); }); }).get();
      fire(i); x.run([&](serv& z) { z.post_callback([] { other(); return 1; }, [&](ba::expected<int> e) { CHECK(!e.has_exception(), "another task was interrupted"); d.set_value(); }); return 0; }).get(); f.get(); }
    asym_window(0); CHECK(cb <= 1, "two callbacks for one task"); if (nrun) { CHECK(cb == 1, "a task which ran got no callback"); CHECK(ex == (nint > 0), "wrong kind of result"); } verdict(1);
}
extern "C" void self_post() {
    pool_t s = mk_single(), w = mk_tp(1); int v = sym_i32("v");
    { asym_window(1); pool_t a = std::move(s), b = std::move(w); prox x(a, b); a = pool_t(); b = pool_t();
      std::future<int> r; ba::any_interruptible i; x.run([&](serv& z) { auto t = z.interruptible_post_self([v] { body(true); return v; }); r = std::move(std::get<0>(t)); i = std::get<1>(t); return 0; }).get();
      fire(i); x.run([&](serv&) { other(); return 0; }).get(); try { CHECK(r.get() == v, "wrong value"); CHECK(nrun && !nint, "value of an interrupted task"); } catch (ba::task_aborted_exception&) { CHECK(nint, "aborted without interruption"); } catch (std::future_error&) { CHECK(!nrun, "a task which ran broke its promise"); } }
    asym_window(0); verdict(1);
}
// subtasks of the interrupted task
static std::atomic<int> nsub{0}; static int maxsub = 0;
struct sleaf : ba::continuation_task<int> { int v; bool strict; sleaf(int x, bool s) : ba::continuation_task<int>("sleaf"), v(x), strict(s) {} void operator()() { auto r = this->this_task_result(); bool s = returned; nsub++; if (strict && s) while (!ip()) boost::this_thread::yield(); /* must arrive, if perhaps a moment later */ try { boost::this_thread::interruption_point(); r.set_value(v); } catch (boost::thread_interrupted&) { r.set_exception(std::make_exception_ptr(ba::task_aborted_exception())); } } };
struct stop_ : ba::continuation_task<int> { int a, b; int kind; stop_(int x, int y, int k) : ba::continuation_task<int>("stop"), a(x), b(y), kind(k) {}
    void operator()() { auto r = this->this_task_result();
        auto sum = [r](auto t) mutable { try { r.set_value(std::get<0>(t).get() ^ std::get<1>(t).get()); } catch (...) { r.set_exception(std::current_exception()); } };
        if (kind == 0) ba::create_callback_continuation(sum, sleaf(a, false), sleaf(b, false));
        else if (kind == 1) { std::vector<sleaf> s; s.emplace_back(a, false); s.emplace_back(b, false); ba::create_callback_continuation([r](std::vector<ba::expected<int>> t) mutable { try { r.set_value(t[0].get() ^ t[1].get()); } catch (...) { r.set_exception(std::current_exception()); } }, std::move(s)); }
        else if (kind == 2) ba::create_continuation(sum, sleaf(a, false), sleaf(b, false));
        else ba::create_callback_continuation(sum, sleaf(a, true), sleaf(b, false)); } };
static void cont_(int n, int kind) {
    pool_t p = mk_tp(n); int a = sym_i32("a"), b = sym_i32("b");
    { asym_window(1); pool_t q = std::move(p); auto t = ba::interruptible_post_future(q, [a, b, kind] { started = 1; return ba::top_level_callback_continuation<int>(stop_(a, b, kind)); }); fire(std::get<1>(t));
      try { CHECK(std::get<0>(t).get() == (a ^ b), "a wrong value"); CHECK(nsub == 2, "a value without the subtasks"); asym_reach("value"); } catch (std::exception&) { asym_reach("except"); }
      later_(q); }
    asym_window(0); CHECK(nsub <= 2, "a subtask ran twice"); CHECK(other_runs == 1, "other"); asym_reach("end");
}
extern "C" void cont() { cont_(1, 0); }
extern "C" void cont2() { cont_(2, 0); }
extern "C" void contseq() { cont_(1, 1); }
extern "C" void contfut() { cont_(1, 2); }
extern "C" void subs() { cont_(2, 3); }

// the subtask which runs waits for the interruption
static int where = 0;
struct qleaf : ba::continuation_task<int> { qleaf() : ba::continuation_task<int>("qleaf") {} void operator()() { auto r = this->this_task_result(); nsub++; if (where == 1) { started = 1; while (!returned) boost::this_thread::yield(); } try { boost::this_thread::interruption_point(); r.set_value(1); } catch (boost::thread_interrupted&) { nint++; r.set_exception(std::make_exception_ptr(ba::task_aborted_exception())); } } };
struct qtop : ba::continuation_task<int> { int kind; qtop(int k) : ba::continuation_task<int>("qtop"), kind(k) {} void operator()() { auto r = this->this_task_result(); if (where == 0) { started = 1; while (!returned) boost::this_thread::yield(); }
    auto sum = [r](auto t) mutable { try { r.set_value(std::get<0>(t).get() + std::get<1>(t).get() + std::get<2>(t).get()); } catch (...) { r.set_exception(std::current_exception()); } };
    if (kind == 0) ba::create_callback_continuation(sum, qleaf(), qleaf(), qleaf());
    else if (kind == 1) ba::create_callback_continuation([r](std::vector<ba::expected<int>> t) mutable { try { r.set_value(t[0].get() + t[1].get() + t[2].get()); } catch (...) { r.set_exception(std::current_exception()); } }, std::vector<qleaf>(3));
    else ba::create_continuation(sum, qleaf(), qleaf(), qleaf()); } };
extern "C" void subs_q() {
    pool_t p = mk_tp(1); where = sym_choice("where", 2); int kind = sym_choice("kind", 3);
    { asym_window(1); pool_t q = std::move(p); auto t = ba::interruptible_post_future(q, [kind] { return ba::top_level_callback_continuation<int>(qtop(kind)); }); while (!started) boost::this_thread::yield(); fire(std::get<1>(t));
      bool ex = false; try { std::get<0>(t).get(); } catch (std::exception&) { ex = true; } CHECK(ex, "an interrupted continuation gives a value although subtasks are missing"); later_(q); }
    asym_window(0); CHECK(nsub == where, "a subtask started although the whole task had been interrupted"); CHECK(nint == where, "the running subtask was not interrupted"); CHECK(other_runs == 1, "other"); asym_reach("end");
}
// a nested future-based continuation whose leaf is still running when the interruption arrives
static std::atomic<int> inleaf{0}, go_leaf{0};
struct nleaf : ba::continuation_task<int> { bool w; nleaf(bool x) : ba::continuation_task<int>("nleaf"), w(x) {} void operator()() { auto r = this->this_task_result(); if (w) { inleaf = 1; while (!go_leaf) boost::this_thread::yield(); } r.set_value(1); } };
struct nmid : ba::continuation_task<int> { int k; nmid(int x) : ba::continuation_task<int>("nmid"), k(x) {} void operator()() { auto r = this->this_task_result(); ba::create_continuation([r](auto t) mutable { try { r.set_value(std::get<0>(t).get()); } catch (...) { r.set_exception(std::current_exception()); } }, nleaf(true)); while (!inleaf) boost::this_thread::yield(); } };
struct ntop : ba::continuation_task<int> { ntop() : ba::continuation_task<int>("ntop") {} void operator()() { auto r = this->this_task_result(); ba::create_continuation([r](auto t) mutable { if (std::get<0>(t).wait_for(std::chrono::seconds(0)) != std::future_status::ready) asym_reach("early"); try { r.set_value(std::get<0>(t).get()); } catch (...) { r.set_exception(std::current_exception()); } }, nmid(0)); } };
extern "C" void nested() {
    pool_t p = mk_tp(2);
    { asym_window(1); pool_t q = std::move(p); auto t = ba::interruptible_post_future(q, [] { return ba::top_level_callback_continuation<int>(ntop()); }); while (!inleaf) boost::this_thread::yield(); fire(std::get<1>(t)); go_leaf = 1;
      try { std::get<0>(t).get(); asym_reach("value"); } catch (std::exception&) { asym_reach("except"); } later_(q); }
    asym_window(0); CHECK(other_runs == 1, "other"); asym_reach("end");
}
