//@ single preempt=1 t.preempt=2 rc time=240 reach=end,inner | single-thread scheduler: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 1 worker, 1 (thorough 2) preemptions, payloads arbitrary
//@ tp preempt=1 t.preempt=2 rc races time=240 reach=end,inner | thread pool: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 2 workers, 1 (thorough 2) preemptions, payloads arbitrary
//@ mq preempt=1 t.preempt=2 rc time=240 reach=end,inner | multi-queue pool: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 2 workers, every priority 0..2 of the first two tasks, 1 (thorough 2) preemptions, payloads arbitrary
//@ mt preempt=1 t.preempt=2 rc time=240 reach=end,inner | multiple-thread scheduler: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 2 workers, 2 queues, 1 (thorough 2) preemptions, payloads arbitrary
//@ io preempt=1 t.preempt=2 rc time=240 reach=end,inner | io pool: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 1 to 2 workers, 1 (thorough 2) preemptions, payloads arbitrary
//@ st preempt=1 t.preempt=2 rc time=240 reach=end,inner | stealing pool: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 2 workers, 1 (thorough 2) preemptions, payloads arbitrary
//@ smq preempt=1 t.preempt=2 rc time=240 reach=end,inner | stealing multi-queue pool: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 2 workers, every priority 0..2 of the first two tasks, 1 (thorough 2) preemptions, payloads arbitrary
//@ comp preempt=1 t.preempt=2 rc time=240 reach=end,inner | composite of a thread pool and a stealing pool (the stealing pool may take from the other): tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 1+1 workers, pools 1 and 2, 1 (thorough 2) preemptions, payloads arbitrary
//@ from2 preempt=1 t.preempt=2 rc time=240 reach=end,inner | two threads post to one pool: tasks 0 (may throw) and 1 posted from outside, task 2 by task 1 | 1 worker, 1+1+1 tasks, 1 (thorough 2) preemptions, payloads arbitrary
#include "pools.h"
// Tasks 0 and 1 are posted by the main thread, task 0 throws, task 1 posts task 2 from inside; symbolic payloads.
static int cnt[4], out[4], in[4], tid[4]; static bool posted[4], thr; static long prio[4];
static void ran(int i) { cnt[i]++; out[i] = in[i]; tid[i] = asym_tid(); }
static void setup(int np) { thr = sym_bool("throws"); for (int i = 0; i < 4; i++) { in[i] = sym_i32("x"); out[i] = ~in[i]; } prio[0] = np ? sym_choice("prio", np) : 0; prio[1] = np ? sym_choice("prio", np) : 0; prio[2] = np ? np - 1 : 0; }
static void post_inner() { auto s = ba::get_thread_scheduler<>().lock(); if (!s.is_valid()) return; posted[2] = true; s.post([] { ran(2); }, prio[2]); }
static void post_two(pool_t& p) { posted[0] = posted[1] = true; p.post([] { ran(0); if (thr) throw std::runtime_error("task"); }, prio[0]); p.post([] { ran(1); post_inner(); }, prio[1]); }
static void verdict() {
    int me = asym_tid();
    for (int i = 0; i < 3; i++) { CHECK(cnt[i] <= 1, "a task was executed twice"); CHECK(cnt[i] == (posted[i] ? 1 : 0), "a posted task was not executed"); if (cnt[i]) { CHECK(out[i] == in[i], "a task ran with the state of another one"); CHECK(tid[i] != me, "a task ran in the posting thread"); } }
    if (posted[2]) asym_reach("inner"); asym_reach("end");
}
template<class F> void scn(F mk, int np) { setup(np); asym_window(1); { pool_t p = mk(); post_two(p); } asym_window(0); verdict(); }
extern "C" void single() { scn([] { return mk_single(); }, 0); }
extern "C" void tp() { scn([] { return mk_tp(2); }, 0); }
extern "C" void mq() { scn([] { return mk_mq(2); }, 3); }
extern "C" void mt() { scn([] { return mk_mt(2, 2); }, 0); }
extern "C" void io() { scn([] { return mk_io(1, 2); }, 0); }
extern "C" void st() { scn([] { return mk_st(2); }, 0); }
extern "C" void smq() { scn([] { return mk_smq(2); }, 3); }
extern "C" void comp() { scn([] { pool_t a = mk_tp(1), b = mk_st_sub(1); return mk_comp(a, b); }, 3); }
extern "C" void from2() { setup(0); asym_window(1); { pool_t p = mk_tp(1); posted[0] = posted[1] = true; boost::thread t([p] { p.post([] { ran(0); if (thr) throw std::runtime_error("task"); }); }); p.post([] { ran(1); post_inner(); }); t.join(); } asym_window(0); verdict(); }
