//@ gate preempt=1 t.preempt=2 rc time=250 reach=end,died0,died1,died2 | the servant dies before, between or after its tasks start: those not started never run, no callback comes | 1 worker, 2 tasks, death at every gate
//@ cb_pending preempt=2 t.preempt=3 rc time=250 reach=end,alive,dead | the callback is on its way while the servant dies | single thread, 1 worker, 1 task
//@ any_time preempt=1 t.preempt=2 rc time=250 reach=end,alive,dead | the client drops the servant at any moment after posting | single thread, 1 worker, 2 tasks
//@ sched_gone preempt=2 t.preempt=3 rc time=250 reach=end,alive,dead | servant and its scheduler die while a foreign pool works for it | single thread, 1 worker, 1 task
//@ safe preempt=1 t.preempt=2 rc time=250 reach=end,alive,dead | a safe callback is called from another thread while the servant dies | single thread, 1 foreign thread, 2 calls
//@ safe_own preempt=1 t.preempt=2 rc time=100 | a safe callback called from the servant's own thread after the servant's death | single thread
//@ self preempt=2 t.preempt=3 rc time=250 reach=end,alive,dead | tasks of post_self and the servant's death | single thread, 2 tasks
//@ fut preempt=1 t.preempt=2 rc time=250 reach=end,alive,dead | post_future tasks: not started before the death are aborted, and their future says so | 1 worker, 1 task behind a gate
//@ cont preempt=1 t.preempt=2 rc time=250 reach=end,died0,died1 | a task returning a continuation | 1 worker, 1 task with 1 subtask
//@ inter preempt=1 t.preempt=2 rc time=250 reach=end,died0,died1 | interruptible_post_callback | 1 worker, 2 tasks
//@ copies preempt=0 time=60 | copied, moved and assigned trackable servants: each is tracked by its own life | single thread
//@ alive_fn preempt=2 t.preempt=3 time=100 | make_check_alive_functor | single thread
//@ caller preempt=1 t.preempt=2 rc time=250 reach=end,alive,dead | call_callback: the asking servant dies before the answer | 2 single-thread schedulers
//@ owner preempt=1 t.preempt=2 rc time=200 reach=end | the servant owns the last reference of its worker pool | single thread, 1 worker, 2 tasks
#include "pools.h"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
static int V[4], nw[4], nc[4]; static std::atomic<bool> dead{false}; static std::vector<boost::thread::id> sid; static bool diedw[4];
static void inputs() { for (int& v : V) v = sym_i32("value"); }
static void in_thread() { CHECK(sid[0] == boost::this_thread::get_id(), "a callback ran outside the servant's thread"); }
struct serv : ba::trackable_servant<> { int live = 1; std::function<void()> on_death; serv(ba::any_weak_scheduler<> s, pool_t w) : ba::trackable_servant<>(s, w) {} 
    ~serv() { in_thread(); live = 0; dead = true; if (on_death) on_death(); } template<class F> void run(F f) { f(*this); }
    void back(int i, ba::expected<int>& e) { in_thread(); CHECK(!dead, "a callback was invoked on a dead servant"); CHECK(live == 1, "a callback was invoked on a dead servant"); nc[i]++; CHECK(!e.has_exception() && e.get() == V[i], "a callback got a wrong value"); } };
struct prox : ba::servant_proxy<prox, serv> { prox(pool_t s, pool_t w) : ba::servant_proxy<prox, serv>(s, w) {} BOOST_ASYNC_FUTURE_MEMBER(run) };
typedef ba::expected<int> ei;
template<class E> void aborted(E& f) { bool a = false; try { f.get(); } catch (ba::task_aborted_exception&) { a = true; } CHECK(a, "a task which was not executed does not say so"); }
// ends the servant and waits for its death
static void kill(std::unique_ptr<prox>& x, pool_t& s) { x.reset(); std::promise<void> p; auto f = p.get_future(); s.post([&p] { p.set_value(); }); f.get(); CHECK(dead, "the servant is still alive"); }
// two tasks behind gates in one worker; the servant is killed when `when` gates have been passed
struct gates { std::promise<void> open[3], at[3]; void pass(int i) { at[i].set_value(); open[i].get_future().get(); } void wait(int i) { at[i].get_future().get(); } void go(int i) { open[i].set_value(); } };
template<class P> void gate_(P post) { inputs(); int when = sym_choice("when", 3); pool_t s = mk_single(), w = mk_tp(1); sid = s.thread_ids(); static gates g; std::unique_ptr<prox> x(new prox(s, w)); asym_window(1);
    w.post([] { g.pass(0); }); x->run([post](serv& z) { for (int i = 0; i < 2; i++) post(z, i, [i] { CHECK(!diedw[i], "a task which had not started was executed after its servant's death"); nw[i]++; g.pass(i + 1); return V[i]; }); }).get();
    bool over = false; for (int k = 0; k < 3; k++) { if (!over) g.wait(k); if (k == when) { kill(x, s); for (int i = k; i < 2; i++) diedw[i] = true; over = true; g.go(k); break; } g.go(k); }
    w = pool_t(); s = pool_t(); asym_window(0); for (int i = 0; i < 2; i++) CHECK(nw[i] == (i < when ? 1 : 0), "the servant's death did not stop exactly the tasks which had not started");
    CHECK(nc[1] == 0, "a callback was invoked on a dead servant"); if (when < 2) CHECK(nc[0] == 0, "a callback was invoked on a dead servant"); asym_reach(when == 0 ? "died0" : when == 1 ? "died1" : "died2"); asym_reach("end"); }
extern "C" void gate() { gate_([](serv& z, int i, auto f) { z.post_callback(f, [i, &z](ei e) { z.back(i, e); }); }); }
extern "C" void inter() { gate_([](serv& z, int i, auto f) { z.interruptible_post_callback(f, [i, &z](ei e) { z.back(i, e); }); }); }
static void verdict() { if (nc[0] + nc[1] > 0) asym_reach("alive"); else asym_reach("dead"); for (int i = 0; i < 2; i++) { CHECK(nc[i] <= 1 && nw[i] <= 1, "a task or callback ran twice"); CHECK(nc[i] <= nw[i], "a callback without work"); } asym_reach("end"); }
template<class F> void race_(bool keep, F f) { inputs(); pool_t s = mk_single(), w = mk_tp(1); sid = s.thread_ids(); std::unique_ptr<prox> x(new prox(s, w)); asym_window(1); { pool_t q = std::move(s), r = std::move(w); if (!keep) q = pool_t(); f(*x); x.reset(); q = pool_t(); r = pool_t(); } asym_window(0); CHECK(dead, "the servant did not die"); verdict(); }
static void one(serv& z, int i) { z.post_callback([i] { nw[i]++; return V[i]; }, [i, &z](ei e) { z.back(i, e); }); }
extern "C" void cb_pending() { race_(true, [](prox& x) { x.run([](serv& z) { one(z, 0); }).get(); }); CHECK(nw[0] <= 1, "a task ran twice"); }
extern "C" void any_time() { race_(true, [](prox& x) { x.run([](serv& z) { one(z, 0); one(z, 1); }); }); }
extern "C" void sched_gone() { race_(false, [](prox& x) { x.run([](serv& z) { one(z, 0); }).get(); }); }
extern "C" void safe() { static std::function<void(int, int)> f; boost::thread t; race_(true, [&t](prox& x) { auto g = x.run([](serv& z) { f = z.make_safe_callback([&z](int i, int v) { ei e(v); z.back(i, e); }); }); g.get(); nw[0] = nw[1] = 1; t = boost::thread([] { auto h = f; h(0, V[0]); h(1, V[1]); }); x = prox(x); }); t.join(); f = nullptr; }
extern "C" void safe_own() { inputs(); static std::function<void(int, int)> f; pool_t s = mk_single(), w = mk_tp(1); sid = s.thread_ids(); std::unique_ptr<prox> x(new prox(s, w)); asym_window(1); x->run([](serv& z) { f = z.make_safe_callback([&z](int i, int v) { ei e(v); z.back(i, e); }); f(0, V[0]); }).get(); CHECK(nc[0] == 1, "a safe callback was not called"); kill(x, s); bool called = false; std::promise<void> p; auto fu = p.get_future(); s.post([&] { f(1, V[1]); called = true; p.set_value(); }); fu.get(); f(1, V[1]); s = pool_t(); f(1, V[1]); w = pool_t(); asym_window(0); CHECK(called && nc[1] == 0, "a safe callback was invoked on a dead servant"); f = nullptr; asym_reach("end"); }
extern "C" void self() { static std::future<int> a, b; race_(true, [](prox& x) { x.run([](serv& z) { a = z.post_self([&z] { CHECK(!dead && z.live == 1, "a task of a dead servant was executed"); nw[0]++; nc[0]++; return V[0]; }); b = z.post_self([&z] { CHECK(!dead && z.live == 1, "a task of a dead servant was executed"); nw[1]++; nc[1]++; return V[1]; }); }); });
    if (nw[0]) CHECK(a.get() == V[0], "a future got a wrong value"); else aborted(a); if (nw[1]) CHECK(b.get() == V[1], "a future got a wrong value"); else aborted(b); }
extern "C" void fut() { inputs(); bool k = sym_flip("kill"); pool_t s = mk_single(), w = mk_tp(1); sid = s.thread_ids(); static gates g; std::unique_ptr<prox> x(new prox(s, w)); static std::future<int> a; asym_window(1); w.post([] { g.pass(0); }); x->run([](serv& z) { a = z.post_future([] { nw[0]++; return V[0]; }); }).get(); g.wait(0); if (k) kill(x, s); g.go(0); if (k) { aborted(a); CHECK(nw[0] == 0, "a task which had not started was executed after its servant's death"); asym_reach("dead"); } else { CHECK(a.get() == V[0], "a future got a wrong value"); asym_reach("alive"); } x.reset(); s = pool_t(); w = pool_t(); asym_window(0); asym_reach("end"); }
static gates cg;
struct ctask : ba::continuation_task<int> { ctask() : ba::continuation_task<int>("c") {} void operator()() { auto r = this->this_task_result(); nw[0]++; cg.pass(1); r.set_value(V[0]); } };
extern "C" void cont() { inputs(); int when = sym_choice("when", 2); pool_t s = mk_single(), w = mk_tp(1); sid = s.thread_ids(); std::unique_ptr<prox> x(new prox(s, w)); asym_window(1); w.post([] { cg.pass(0); }); x->run([](serv& z) { z.post_callback([] { return ba::top_level_callback_continuation<int>(ctask()); }, [&z](ei e) { z.back(0, e); }); }).get(); cg.wait(0); if (when == 0) kill(x, s); cg.go(0); if (when == 1) { cg.wait(1); kill(x, s); cg.go(1); } w = pool_t(); s = pool_t(); asym_window(0); CHECK(nw[0] == when, "the servant's death did not stop exactly the tasks which had not started"); CHECK(nc[0] == 0, "a callback was invoked on a dead servant"); asym_reach(when ? "died1" : "died0"); asym_reach("end"); }
// copies
struct cserv : ba::trackable_servant<> { int id; cserv(ba::any_weak_scheduler<> s, int i) : ba::trackable_servant<>(s), id(i) {} };
extern "C" void copies() { inputs(); pool_t s = mk_single(); sid = s.thread_ids(); auto w = s.get_weak_scheduler(); int mode = sym_choice("mode", 4); std::promise<void> p; auto f = p.get_future(); s.post([&] { { auto a = std::make_unique<cserv>(w, 0); int n = 0; auto fa = a->make_safe_callback([&n] { n++; }); auto la = a->make_check_alive_functor();
        std::unique_ptr<cserv> b; if (mode == 0) b.reset(new cserv(*a)); else if (mode == 1) b.reset(new cserv(std::move(*a))); else { b.reset(new cserv(w, 1)); auto fb = b->make_safe_callback([&n] { n += 100; }); if (mode == 2) *b = *a; else *b = std::move(*a); fb(); CHECK(n == 0, "a callback of an overwritten servant was invoked"); }
        auto fb = b->make_safe_callback([&n] { n += 10; }); fb(); CHECK(n == 10, "a safe callback of a copy was not called"); fa(); CHECK(n == 11, "a safe callback was not called"); a.reset(); n = 0; fa(); CHECK(n == ((mode & 1) ? 1 : 0), "a copy does not have its own life"); CHECK(la() == ((mode & 1) != 0), "a copy does not have its own life"); n = 0; fb(); CHECK(n == 10, "a safe callback of a copy was not called"); b.reset(); n = 0; fb(); fa(); CHECK(n == 0 && !la(), "a callback was invoked on a dead servant"); } p.set_value(); }); f.get(); s = pool_t(); asym_reach("end"); }
extern "C" void alive_fn() { inputs(); pool_t s = mk_single(), w = mk_tp(1); sid = s.thread_ids(); std::unique_ptr<prox> x(new prox(s, w)); static std::function<bool()> f; asym_window(1); x->run([](serv& z) { f = z.make_check_alive_functor(); }).get(); CHECK(f(), "a living servant is reported dead"); kill(x, s); s = pool_t(); w = pool_t(); asym_window(0); CHECK(!f(), "a dead servant is reported alive"); f = nullptr; asym_reach("end"); }
struct other { typedef int requires_weak_scheduler; other(ba::any_weak_scheduler<>) {} int get() { nw[0]++; return V[0]; } };
struct oprox : ba::servant_proxy<oprox, other> { oprox(pool_t s) : ba::servant_proxy<oprox, other>(s) {} BOOST_ASYNC_UNSAFE_MEMBER(get) };
extern "C" void caller() { inputs(); bool k = sym_flip("kill"); pool_t s = mk_single(), o = mk_single(), w; sid = s.thread_ids(); static gates g; static std::unique_ptr<oprox> y; y.reset(new oprox(o)); std::unique_ptr<prox> x(new prox(s, w)); asym_window(1); o.post([] { g.pass(0); }); x->run([](serv& z) { z.call_callback(y->get_proxy(), y->get(), [&z](ei e) { z.back(0, e); }); }).get(); g.wait(0); if (k) kill(x, s); g.go(0); y.reset(); o = pool_t(); if (!k) { std::promise<void> p; auto f = p.get_future(); s.post([&p] { p.set_value(); }); f.get(); CHECK(nc[0] == 1, "a callback was lost"); } x.reset(); s = pool_t(); asym_window(0); CHECK(nw[0] == (k ? 0 : 1) && nc[0] == nw[0], "the servant's death did not stop exactly the tasks which had not started"); asym_reach(k ? "dead" : "alive"); asym_reach("end"); }
extern "C" void owner() { inputs(); pool_t s = mk_single(); sid = s.thread_ids(); std::unique_ptr<prox> x(new prox(s, mk_tp(1))); asym_window(1); x->run([](serv& z) { one(z, 0); one(z, 1); }).get(); kill(x, s); int a = nw[0], b = nw[1], c = nc[0] + nc[1]; std::promise<void> p; auto f = p.get_future(); s.post([&p] { p.set_value(); }); f.get(); CHECK(a == nw[0] && b == nw[1], "work of a dead servant's own pool runs after its end"); CHECK(nc[0] + nc[1] == c, "a callback was invoked on a dead servant"); s = pool_t(); asym_window(0); verdict(); }
