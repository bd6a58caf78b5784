//@ single preempt=1 t.preempt=3 rc time=200 | single-thread scheduler: 3 posted tasks (one throws, one yields), then the last proxy goes | 1 worker, 3 tasks, 1 (thorough 3) preemptions
//@ tp preempt=1 t.preempt=2 rc time=200 | thread pool, same | 1 or 2 workers, 3 tasks, 1 (thorough 2) preemptions
//@ mq preempt=1 t.preempt=2 rc time=200 | multi-queue pool, same | 1 or 2 workers, 3 tasks
//@ mt preempt=1 t.preempt=2 rc time=200 | multiple-thread scheduler, same | 2 workers, 2 clients, 3 tasks
//@ io preempt=1 t.preempt=2 rc time=200 | io pool, same | 1 to 2 workers, 3 tasks
//@ st preempt=1 t.preempt=2 rc time=200 | stealing pool, same | 1 or 2 workers, 3 tasks
//@ smq preempt=1 t.preempt=2 rc time=200 | stealing multi-queue pool, same | 1 or 2 workers, 3 tasks
//@ comp preempt=1 t.preempt=2 rc time=200 | composite of two pools, same | 1+1 workers, 3 tasks
//@ two preempt=1 t.preempt=2 rc time=200 | a second thread posts and drops its proxy copy in any order with the first | thread pool, 1 worker, 2+1 tasks
//@ layer preempt=1 t.preempt=2 rc time=200 reach=dropped | the last proxy of a lower layer is dropped by a task of another scheduler | 1+1 workers, 2 tasks below, 1 above
//@ weak preempt=1 t.preempt=2 rc time=200 reach=locked,late | a weak scheduler locked while the last proxy goes: posts when valid, and what it posted runs | thread pool, 1 worker
//@ weak_single preempt=1 t.preempt=2 rc time=200 reach=locked,late | same for the single-thread scheduler | 1 worker
//@ slow preempt=1 t.preempt=2 rc time=200 | a task blocks (sleeps) while the scheduler is shut down | thread pool, 2 workers, 3 tasks
#include "pools.h"
static int cnt[5]; static std::atomic<bool> over{false}; static int N = 3;
static int in[5], out[5]; static bool thr = false;
static void inputs() { for (int i = 0; i < 3; i++) { in[i] = sym_i32("payload"); out[i] = ~in[i]; } thr = sym_bool("throws"); }
static void ran(int i) { CHECK(!over, "a task ran after the scheduler was shut down"); cnt[i]++; out[i] = in[i]; }
static void post_all(pool_t& p, int from = 0) { for (int i = from; i < N; i++) p.post([i] { ran(i); if (i == 0 && thr) throw std::runtime_error("task"); if (i == 1) boost::this_thread::yield(); }); }
static void verdict() { for (int i = 0; i < N; i++) { CHECK(cnt[i] == 1, "a task posted before the shutdown was not executed exactly once"); CHECK(out[i] == in[i], "a task did not work on its own data"); } CHECK(asym_nthreads() == 1, "a worker thread outlives its scheduler"); asym_reach("end"); }
// the posting thread drops the last proxy
template<class F> void shut(F mk) { inputs(); asym_window(1); { pool_t p = mk(); post_all(p); } over = true; asym_window(0); verdict(); }
static int w12() { return 1 + sym_choice("workers", 2); }
extern "C" void single() { shut([] { return mk_single(); }); }
extern "C" void tp() { int n = w12(); shut([n] { return mk_tp(n); }); }
extern "C" void mq() { int n = w12(); shut([n] { return mk_mq(n); }); }
extern "C" void mt() { shut([] { return mk_mt(2, 2); }); }
extern "C" void io() { shut([] { return mk_io(1, 2); }); }
extern "C" void st() { int n = w12(); shut([n] { return mk_st(n); }); }
extern "C" void smq() { int n = w12(); shut([n] { return mk_smq(n); }); }
extern "C" void comp() { N = 3; inputs(); asym_window(1); { pool_t a = mk_tp(1), b = mk_smq_sub(1); pool_t p = mk_comp(a, b); a = pool_t(); b = pool_t(); for (int i = 0; i < 3; i++) p.post([i] { ran(i); }, 1 + i % 2); } over = true; asym_window(0); verdict(); }
extern "C" void two() { inputs(); asym_window(1); { pool_t p = mk_tp(1); boost::thread t([q = p]() mutable { pool_t z = std::move(q); z.post([] { ran(2); }); }); N = 2; post_all(p); p = pool_t(); t.join(); } N = 3; over = true; asym_window(0); verdict(); }
static pool_t held;
extern "C" void layer() { inputs(); asym_window(1); { pool_t up = mk_tp(1); N = 2; held = mk_single(); post_all(held); up.post([] { if (cnt[0] + cnt[1] < 2) asym_reach("dropped"); held = pool_t(); CHECK(cnt[0] == 1 && cnt[1] == 1, "the lower layer's tasks had not run when its last proxy was gone"); ran(2); }); N = 3; } over = true; asym_window(0); verdict(); }
template<class F> void weak_(F mk) { N = 2; inputs(); asym_window(1); bool lk = false, done = false; boost::thread t; { pool_t p = mk(); ba::any_weak_scheduler<> w = p.get_weak_scheduler();
        t = boost::thread([w, &lk, &done] { { auto s = w.lock(); lk = s.is_valid(); if (lk) s.post([] { ran(1); }); } done = true; }); p.post([] { ran(0); }); w = ba::any_weak_scheduler<>(p.get_weak_scheduler()); p = pool_t(); if (lk) asym_reach("locked"); auto s = w.lock(); CHECK(!s.is_valid(), "a weak scheduler could be locked after the shutdown"); over = true; }
    t.join(); asym_window(0); if (!lk) asym_reach("late"); CHECK(cnt[1] == (lk ? 1 : 0), "a task posted through a valid scheduler was lost"); N = 1; verdict(); }
extern "C" void weak() { weak_([] { return mk_tp(1); }); }
extern "C" void weak_single() { weak_([] { return mk_single(); }); }
extern "C" void slow() { inputs(); asym_window(1); { pool_t p = mk_tp(2); p.post([] { boost::this_thread::sleep_for(boost::chrono::milliseconds(5)); ran(0); }); p.post([] { ran(1); }); p.post([] { ran(2); }); } over = true; asym_window(0); verdict(); }
