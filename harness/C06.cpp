//@ basic preempt=1 t.preempt=2 races time=300 reach=end,thrown,value | post_callback: two tasks with different callbacks, one may throw | servant in a single thread, 1 worker, 2 tasks
//@ two_workers preempt=0 t.preempt=1 rc races time=300 | post_callback with two workers: results do not cross | servant in a single thread, 2 workers, 2 tasks
//@ voids preempt=0 t.preempt=1 rc time=200 reach=end,thrown,value | tasks returning void | 1 worker, 1 task
//@ moveonly preempt=0 t.preempt=1 rc time=200 | move-only results, captured state | 1 worker, 1 task
//@ cont preempt=0 t.preempt=1 rc time=300 reach=end,thrown,value | a task returning a continuation (callback based), whose subtask may throw | 1 worker, 1 task with 2 subtasks
//@ contfu preempt=0 t.preempt=1 rc time=300 reach=end,thrown,value | a task returning a future-based continuation | 1 worker, 1 task with 1 subtask
//@ lambda_cont preempt=0 t.preempt=1 rc time=300 reach=end,thrown,value | make_lambda_continuation_wrapper as work | 1 worker, 1 task
//@ inter preempt=0 t.preempt=1 rc time=200 reach=end,thrown,value | interruptible_post_callback without interruption | 1 worker, 1 task
//@ other_pool preempt=0 t.preempt=1 rc time=200 reach=end,thrown,value | post_callback with an explicit worker scheduler | 1 worker, 1 task
//@ self preempt=0 t.preempt=1 rc time=200 reach=end,thrown,value | post_self: runs in the servant's thread, not inside the caller; future gets value or exception | single thread, 2 tasks
//@ fut preempt=0 t.preempt=1 rc time=200 reach=end,thrown,value | post_future of a servant: runs in the worker pool | 1 worker, 1 task
//@ safe preempt=1 t.preempt=2 races time=200 | make_safe_callback called from a foreign thread and from the servant's own thread | single thread, 1 foreign thread, 3 calls
//@ safe2 preempt=0 t.preempt=1 races rc time=200 | make_safe_callback called from two foreign threads and from the servant's own thread | single thread, 2 foreign threads, 4 calls
//@ safe_post preempt=1 t.preempt=2 rc time=200 | make_safe_post_callback is posted even when called from the servant's own thread | single thread, 3 calls
//@ safe_throw preempt=1 t.preempt=2 rc time=200 | a safe callback and a callback which throw do not disturb the next ones | single thread, 1 worker
//@ call_cb preempt=1 t.preempt=2 rc time=300 reach=end,thrown,value | call_callback: an unsafe member of another servant, answer in this servant's thread | 2 single-thread schedulers
//@ chain preempt=0 t.preempt=1 rc time=300 | a callback posts the next task: results arrive in order | 1 worker, 3 tasks
//@ logged preempt=0 t.preempt=1 rc time=300 reach=end,thrown,value | post_callback with loggable jobs and names | 1 worker, 1 task
//@ free_fn preempt=1 t.preempt=2 rc time=200 reach=end,thrown,value | boost::asynchronous::post_callback without servant, callback to any scheduler | 1 worker, 1 thread
//@ stealing preempt=0 t.preempt=1 rc time=300 reach=end,thrown,value | the worker pool is a multi-queue / stealing pool | 1 worker, 2 tasks
#include "pools.h"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
static std::vector<boost::thread::id> sid, wid; static int V[8], nw[8], nc[8], val[8]; static bool ex[8], thr = false; static bool T[8];
static bool in(std::vector<boost::thread::id> const& v) { bool r = false; for (auto& i : v) r |= i == boost::this_thread::get_id(); return r; }
static void inputs() { for (int& v : V) v = sym_i32("value"); thr = sym_bool("throws"); }
// work i, in the worker pool
static int work(int i, bool t) { CHECK(in(wid), "the work did not run in the worker pool"); nw[i]++; if (t) throw std::runtime_error("work"); return V[i]; }
// callback i, in the servant's thread; st is the servant's unprotected state
static int st = 0;
static void scb() { CHECK(in(sid), "the callback did not run in the servant's thread"); st++; boost::this_thread::yield(); st++; }
template<class E> void cb(int i, E& e) { scb(); nc[i]++; ex[i] = e.has_exception(); if (!ex[i]) val[i] = e.get(); }
static void cbv(int i, ba::expected<void>& e) { scb(); nc[i]++; ex[i] = e.has_exception(); if (ex[i]) { bool c = false; try { e.get(); } catch (std::runtime_error&) { c = true; } CHECK(c, "a callback got another exception"); } }
static std::promise<void>* done; static int left = 1; static void fin() { if (--left == 0) { auto d = done; done = nullptr; CHECK(d, "too many callbacks"); d->set_value(); } }
struct serv : ba::trackable_servant<> { serv(ba::any_weak_scheduler<> s, pool_t w) : ba::trackable_servant<>(s, w) {} 
    template<class F> void run(F f) { f(*this); } };
struct prox : ba::servant_proxy<prox, serv> { prox(pool_t s, pool_t w) : ba::servant_proxy<prox, serv>(s, w) {} BOOST_ASYNC_FUTURE_MEMBER(run) };
// creates servant and pool, runs f in the servant's thread, waits for n callbacks, ends everything
template<class F> void world(pool_t w, int n, F f) { pool_t s = mk_single(); sid = s.thread_ids(); wid = w.thread_ids(); std::promise<void> d; auto fd = d.get_future(); done = &d; left = n; asym_window(1); { pool_t q = std::move(s), r = std::move(w); prox x(q, r); q = pool_t(); r = pool_t(); auto fu = x.run(f); fu.get(); fd.get(); } asym_window(0); }
static void onecb(int i) { CHECK(nc[i] == 1, "a callback did not arrive exactly once"); }
static void verdict(int i, bool t) { CHECK(nw[i] == 1, "the work was not executed exactly once"); onecb(i); CHECK(ex[i] == t, "the callback got the wrong kind of result"); if (t) asym_reach("thrown"); else { CHECK(val[i] == V[i], "the callback got a wrong value"); asym_reach("value"); } asym_reach("end"); }
typedef ba::expected<int> ei; typedef ba::expected<void> ev;
extern "C" void basic() { inputs(); world(mk_tp(1), 2, [](serv& s) { s.post_callback([] { return work(0, thr); }, [](ei e) { cb(0, e); fin(); }); s.post_callback([] { return work(1, false); }, [](ei e) { cb(1, e); fin(); }); }); verdict(0, thr); CHECK(!ex[1] && val[1] == V[1], "the callback got a wrong value"); onecb(1); }
extern "C" void two_workers() { inputs(); world(mk_tp(2), 2, [](serv& s) { s.post_callback([] { return work(0, thr); }, [](ei e) { cb(0, e); fin(); }); s.post_callback([] { return work(1, !thr); }, [](ei e) { cb(1, e); fin(); }); }); verdict(0, thr); verdict(1, !thr); }
extern "C" void voids() { inputs(); world(mk_tp(1), 1, [](serv& s) { s.post_callback([] { work(0, thr); }, [](ev e) { cbv(0, e); fin(); }); }); val[0] = V[0]; verdict(0, thr); }
extern "C" void moveonly() { inputs(); world(mk_tp(1), 1, [](serv& s) { s.post_callback([p = std::make_shared<int>(V[3])] { auto r = std::make_unique<int>(work(0, false) ^ *p); return r; }, [q = std::make_shared<int>(V[3])](ba::expected<std::unique_ptr<int>> e) { scb(); nc[0]++; CHECK(!e.has_exception() && e.get(), "a result was lost"); val[0] = *e.get() ^ *q; fin(); }); }); verdict(0, false); }
struct sub : ba::continuation_task<int> { int i; bool t; sub(int i_, bool t_) : ba::continuation_task<int>("sub"), i(i_), t(t_) {} void operator()() { auto r = this->this_task_result(); try { r.set_value(work(i, t)); } catch (...) { r.set_exception(std::current_exception()); } } };
struct top : ba::continuation_task<int> { bool t; top(bool t_) : ba::continuation_task<int>("top"), t(t_) {} void operator()() { auto r = this->this_task_result(); ba::create_callback_continuation([r](std::tuple<ba::expected<int>, ba::expected<int>> x) mutable { try { r.set_value(std::get<0>(x).get() ^ std::get<1>(x).get()); } catch (...) { r.set_exception(std::current_exception()); } }, sub(0, t), sub(1, false)); } };
extern "C" void cont() { inputs(); world(mk_tp(1), 1, [](serv& s) { s.post_callback([] { return ba::top_level_callback_continuation<int>(top(thr)); }, [](ei e) { cb(0, e); fin(); }); }); if (!ex[0]) val[0] ^= V[1]; verdict(0, thr); CHECK(nw[1] == 1, "a subtask was not executed exactly once"); }
extern "C" void contfu() { inputs(); world(mk_tp(1), 1, [](serv& s) { s.post_callback([] { return ba::top_level_continuation<int>(sub(0, thr)); }, [](ei e) { cb(0, e); fin(); }); }); verdict(0, thr); }
extern "C" void lambda_cont() { inputs(); world(mk_tp(1), 1, [](serv& s) { s.post_callback([] { return ba::top_level_callback_continuation<int>(ba::make_lambda_continuation_wrapper([] { return work(0, thr); }, "l")); }, [](ei e) { cb(0, e); fin(); }); }); verdict(0, thr); }
extern "C" void inter() { inputs(); world(mk_tp(1), 1, [](serv& s) { s.interruptible_post_callback([] { return work(0, thr); }, [](ei e) { cb(0, e); fin(); }); }); verdict(0, thr); }
extern "C" void other_pool() { inputs(); pool_t o = mk_tp(1); auto oid = o.thread_ids(); world(mk_tp(1), 1, [&o, oid](serv& s) { wid = oid; s.post_callback(o, [] { return work(0, thr); }, [](ei e) { cb(0, e); fin(); }); }); o = pool_t(); verdict(0, thr); }
extern "C" void self() { inputs(); std::future<int> a, b; bool inside = false; world(mk_tp(1), 1, [&](serv& s) { wid = sid; inside = true; a = s.post_self([&inside] { CHECK(!inside, "post_self ran inside its caller"); return work(0, thr); }); b = s.post_self([&] { int r = work(1, false); nc[0] = 1; CHECK(nw[0] == 1, "post_self tasks ran out of order"); fin(); return r; }); inside = false; });
    try { val[0] = a.get(); } catch (std::runtime_error&) { ex[0] = true; } CHECK(b.get() == V[1], "a future got a wrong value"); verdict(0, thr); }
extern "C" void fut() { inputs(); std::future<int> a; world(mk_tp(1), 1, [&](serv& s) { a = s.post_future([] { return work(0, thr); }); nc[0] = 1; fin(); }); try { val[0] = a.get(); } catch (std::runtime_error&) { ex[0] = true; } verdict(0, thr); }
static std::vector<int> logv; static std::function<void(int, int)> scall;
static void safe_(bool two) { inputs(); logv.reserve(8); boost::thread a, b; world(mk_tp(1), two ? 4 : 3, [&](serv& s) { int x = 0; auto f = s.make_safe_callback([x](int i, int v) mutable { scb(); nc[i]++; CHECK(v == V[i], "a safe callback got a wrong argument"); logv.push_back(i); x++; fin(); });
        a = boost::thread([f]() mutable { f(0, V[0]); f(1, V[1]); }); if (two) b = boost::thread([f]() mutable { f(2, V[2]); }); int before = (int)logv.size(); f(3, V[3]); CHECK((int)logv.size() == before + 1 && nc[3] == 1, "a safe callback from the servant's thread was not called at once"); });
    a.join(); if (two) b.join(); for (int i = 0; i < 4; i++) if (i != 2 || two) onecb(i); int p0 = -1, p1 = -1; for (int k = 0; k < (int)logv.size(); k++) { if (logv[k] == 0) p0 = k; if (logv[k] == 1) p1 = k; } CHECK(p0 < p1, "safe callbacks of one thread arrived out of order"); asym_reach("end"); }
extern "C" void safe() { safe_(false); }
extern "C" void safe2() { safe_(true); }
extern "C" void safe_post() { inputs(); boost::thread a; bool inside = false; world(mk_tp(1), 3, [&](serv& s) { inside = true; auto f = s.make_safe_post_callback([&inside](int i, int v) { CHECK(!inside, "a posted callback ran inside its caller"); scb(); nc[i]++; CHECK(v == V[i], "a safe callback got a wrong argument"); fin(); }); f(0, V[0]); f(1, V[1]); a = boost::thread([f]() mutable { f(2, V[2]); }); inside = false; }); a.join(); for (int i = 0; i < 3; i++) onecb(i); asym_reach("end"); }
extern "C" void safe_throw() { inputs(); world(mk_tp(1), 3, [&](serv& s) { auto f = s.make_safe_callback([](int i) { scb(); nc[i]++; fin(); if (thr) throw std::runtime_error("callback"); }); f(0); s.post_callback([f] { auto g = f; g(1); return work(2, false); }, [](ei e) { cb(2, e); fin(); throw std::runtime_error("callback"); }); }); onecb(0); onecb(1); verdict(2, false); }
// an unsafe member of another servant, called with call_callback
struct other { int a; explicit other(int x) : a(x) {} int get(int i, bool t) { return work(i, t) ^ a; } };
struct oprox : ba::servant_proxy<oprox, other> { oprox(pool_t s, int a) : ba::servant_proxy<oprox, other>(s, a) {} BOOST_ASYNC_UNSAFE_MEMBER(get) };
extern "C" void call_cb() { inputs(); pool_t o = mk_single(); auto oid = o.thread_ids(); { auto x = std::make_shared<oprox>(o, V[5]); o = pool_t(); world(mk_tp(1), 1, [&](serv& s) { wid = oid; s.call_callback(x->get_proxy(), x->get(0, thr), [](ei e) { cb(0, e); fin(); }); x.reset(); }); } if (!ex[0]) val[0] ^= V[5]; verdict(0, thr); }
static void next(serv& s, int i) { s.post_callback([i] { return work(i, false); }, [&s, i](ei e) { cb(i, e); if (i < 2) next(s, i + 1); CHECK(i == 0 || nc[i - 1] == 1, "callbacks out of order"); fin(); }); }
extern "C" void chain() { inputs(); world(mk_tp(1), 3, [](serv& s) { next(s, 0); }); for (int i = 0; i < 3; i++) verdict(i, false); }
typedef ba::any_loggable lj; typedef ba::any_shared_scheduler_proxy<lj> lpool;
struct lserv : ba::trackable_servant<lj, lj> { lserv(ba::any_weak_scheduler<lj> s, lpool w) : ba::trackable_servant<lj, lj>(s, w) {} void run() { this->post_callback([] { return work(0, thr); }, [](ei e) { cb(0, e); fin(); }, "task", 0, 0); } };
struct lprox : ba::servant_proxy<lprox, lserv, lj> { lprox(lpool s, lpool w) : ba::servant_proxy<lprox, lserv, lj>(s, w) {} BOOST_ASYNC_FUTURE_MEMBER_LOG(run, "run", 0) };
extern "C" void logged() { inputs(); lpool s = ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<lj>, nosave>>(), w = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<lj>, nosave>>(1); sid = s.thread_ids(); wid = w.thread_ids(); std::promise<void> d; auto fd = d.get_future(); done = &d; asym_window(1); { lpool q = std::move(s), r = std::move(w); lprox x(q, r); q = lpool(); r = lpool(); x.run().get(); fd.get(); } asym_window(0); verdict(0, thr); }
extern "C" void free_fn() { inputs(); pool_t s = mk_single(), w = mk_tp(1); sid = s.thread_ids(); wid = w.thread_ids(); std::promise<void> d; auto fd = d.get_future(); done = &d; asym_window(1); { pool_t q = std::move(s), r = std::move(w); auto k = q.get_weak_scheduler(); ba::post_callback(r, [] { return work(0, thr); }, k, [](ei e) { cb(0, e); fin(); }); r = pool_t(); fd.get(); } asym_window(0); verdict(0, thr); }
extern "C" void stealing() { inputs(); pool_t w; switch (sym_choice("pool", 4)) { case 0: w = mk_mq(1); break; case 1: w = mk_st(1); break; case 2: w = mk_io(1, 1); break; default: w = mk_smq(1); } world(w, 2, [](serv& s) { s.post_callback([] { return work(0, thr); }, [](ei e) { cb(0, e); fin(); }); s.post_callback([] { return work(1, !thr); }, [](ei e) { cb(1, e); fin(); }); }); verdict(0, thr); verdict(1, !thr); }
