//@ single_gd preempt=2 t.preempt=3 races time=200 | single-thread scheduler, guarded_deque: two posters, 2 tasks each (one throws) | 1 worker, 2 posters, 2+2 tasks
//@ single_lf preempt=1 t.preempt=2 time=200 | single-thread scheduler, lockfree_queue: same | 1 worker, 2 posters, 2+2 tasks
//@ single_list preempt=1 t.preempt=2 races time=200 | single-thread scheduler, threadsafe_list: same | 1 worker, 2 posters, 2+2 tasks
//@ single_any preempt=1 t.preempt=2 races time=200 | single-thread scheduler, any_queue_container of 2 guarded_deques: tasks of equal priority | 1 worker, 2 posters, 2+2 tasks, priority 1 or 2
//@ single_nest preempt=2 t.preempt=4 races rc time=200 | tasks posted by tasks of the single-thread scheduler itself | 1 worker, 1 poster, 2+2 tasks
//@ mt_worlds preempt=1 t.preempt=2 races time=250 reach=end,moved | multiple-thread scheduler, two worlds with plain data each, tasks may throw | 2 workers, 2 worlds, 2 tasks per world
//@ mt_one preempt=1 t.preempt=2 races time=250 reach=end,moved | multiple-thread scheduler, one world served by two workers, two posters | 2 workers, 1 world, 2+1 tasks
//@ mt_many preempt=1 t.preempt=2 races rc time=250 reach=end,nested,late | multiple-thread scheduler, more worlds than workers, one task posts into another world | 1 worker, 3 worlds, 4 tasks
//@ mt_job preempt=2 t.preempt=3 races time=250 | multiple-thread scheduler: the task objects of a world are destroyed before its next task runs | 2 workers, 1 world, 2 tasks
//@ mt_intr preempt=1 t.preempt=2 races time=250 | multiple-thread scheduler: interruptible tasks belong to their world as well | 2 workers, 2 worlds, 2 tasks per world
//@ mt_callback finding preempt=1 t.preempt=1 time=100 | callbacks of a trackable_servant in the second world belong to that world | multiple-thread scheduler, 2 workers, 2 worlds, 1 callback
//@ mt_cbprio preempt=1 t.preempt=2 races time=250 | callbacks posted with the world's priority belong to the world | multiple-thread scheduler, 2 workers, 2 worlds, 1 callback
#include "pools.h"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
static bool none = false; static int N = 0, st_[8], pay[8], got[8]; static std::vector<int> logv[4]; static int inside[4]; static bool thr = false; static boost::thread::id who[8];
static void inputs() { for (int i = 0; i < 8; i++) { pay[i] = sym_i32("payload"); got[i] = ~pay[i]; } thr = sym_bool("throws"); for (auto& l : logv) l.reserve(8); }
// task i of world w: plain (unsynchronised) accesses to the world's data
static void body(int w, int i, int v, bool t = false) {
    CHECK(inside[w] == 0, "two tasks of one world overlap"); inside[w] = 1; who[i] = boost::this_thread::get_id(); st_[i]++; got[i] = v; boost::this_thread::yield(); logv[w].push_back(i);
    CHECK(inside[w] == 1, "two tasks of one world overlap"); inside[w] = 0; if (t && thr) throw std::runtime_error("task"); }
static void order(int w, int a, int b) { int pa = -1, pb = -1; for (int k = 0; k < (int)logv[w].size(); k++) { if (logv[w][k] == a) pa = k; if (logv[w][k] == b) pb = k; } CHECK(pa >= 0 && pb >= 0, "a posted task did not run"); CHECK(pa < pb, "tasks posted by one thread ran out of order"); }
static void once_all(int n) { for (int i = 0; i < n; i++) { CHECK(st_[i] == 1, "a posted task did not run exactly once"); CHECK(got[i] == pay[i], "a task got the wrong payload"); } }
// two posting threads, two tasks each
template<class P> void two_posters(pool_t p, P post) {
    auto ids = p.thread_ids(); CHECK(ids.size() == 1, "a single-thread scheduler has one thread"); boost::thread::id id = ids[0];
    asym_window(1); { pool_t q = std::move(p); boost::thread t([r = q, &post]() mutable { pool_t z = std::move(r); post(z, 2); post(z, 3); }); post(q, 0); post(q, 1); t.join(); q = pool_t(); }
    asym_window(0); once_all(4); order(0, 0, 1); order(0, 2, 3); for (int i = 0; i < 4; i++) CHECK(who[i] == id, "a task ran outside the scheduler's thread"); asym_reach("end"); }
static void plain(pool_t& p, int i) { int v = pay[i]; p.post([i, v] { body(0, i, v, i == 0); }); }
template<class Q> void single_() { inputs(); two_posters(ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<Q, nosave>>(), plain); }
extern "C" void single_gd() { single_<gd>(); }
extern "C" void single_lf() { single_<ba::lockfree_queue<>>(); }
extern "C" void single_list() { single_<ba::threadsafe_list<>>(); }
extern "C" void single_any() { inputs(); unsigned pr = 1 + sym_choice("prio", 2);
    two_posters(ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<>, nosave>>(ba::any_queue_container_config<gd>(2)), [pr](pool_t& p, int i) { int v = pay[i]; p.post([i, v] { body(0, i, v, i == 0); }, pr); }); }
extern "C" void single_nest() { inputs(); pool_t p = mk_single(); asym_window(1); { pool_t q = std::move(p); auto w = q.get_weak_scheduler();
        q.post([w] { body(0, 0, pay[0]); auto s = w.lock(); if (!s.is_valid()) { none = true; return; } s.post([] { body(0, 2, pay[2]); }); s.post([] { body(0, 3, pay[3]); }); }); q.post([] { body(0, 1, pay[1]); }); q = pool_t(); }
    asym_window(0); once_all(none ? 2 : 4); order(0, 0, 1); if (none) asym_reach("late"); else { order(0, 0, 2); order(0, 2, 3); } asym_reach("end"); }
template<class P> void wpost(P& p, int w, int i) { int v = pay[i]; p.post([w, i, v] { body(w, i, v, i == 0); }, 100000 * (std::size_t)w); }
static void moved(int a, int b) { if (who[a] != who[b]) asym_reach("moved"); asym_reach("end"); }
extern "C" void mt_worlds() { inputs(); pool_t p = mk_mt(2, 2); asym_window(1); { pool_t q = std::move(p); wpost(q, 0, 0); wpost(q, 1, 2); wpost(q, 0, 1); wpost(q, 1, 3); q = pool_t(); } asym_window(0); once_all(4); order(0, 0, 1); order(1, 2, 3); moved(0, 1); }
extern "C" void mt_one() { inputs(); pool_t p = mk_mt(2, 1); asym_window(1); { pool_t q = std::move(p); boost::thread t([r = q]() mutable { pool_t z = std::move(r); wpost(z, 0, 2); }); wpost(q, 0, 0); wpost(q, 0, 1); t.join(); q = pool_t(); } asym_window(0); once_all(3); order(0, 0, 1); moved(0, 1); }
extern "C" void mt_many() { inputs(); pool_t p = mk_mt(1, 3); asym_window(1); { pool_t q = std::move(p); auto w = q.get_weak_scheduler();
        q.post([w] { { auto s = w.lock(); if (s.is_valid()) wpost(s, 2, 3); else none = true; } body(1, 0, pay[0]); }, 100000); wpost(q, 2, 1); wpost(q, 0, 2); q = pool_t(); } asym_window(0); once_all(none ? 3 : 4); if (none) asym_reach("late"); else asym_reach("nested"); asym_reach("end"); }
// a task owns something of its world: it must be gone before the world's next task starts
static bool gone[4]; struct owner { int i; explicit owner(int i_) : i(i_) {} owner(owner const&) = delete; ~owner() { CHECK(inside[0] == 0, "a task object is destroyed while another task of its world runs"); gone[i] = true; } };
extern "C" void mt_job() { inputs(); pool_t p = mk_mt(2, 1); asym_window(1); { pool_t q = std::move(p);
        for (int i = 0; i < 2; i++) { int v = pay[i]; q.post([o = std::make_shared<owner>(i), i, v] { if (i == 1) CHECK(gone[0], "the previous task of the world still exists while the next one runs"); body(0, i, v, i == 0); }, 0); } q = pool_t(); }
    asym_window(0); once_all(2); order(0, 0, 1); CHECK(gone[1], "a task was never destroyed"); asym_reach("end"); }
extern "C" void mt_intr() { inputs(); pool_t p = mk_mt(2, 2); asym_window(1); { pool_t q = std::move(p); q.interruptible_post([] { body(1, 0, pay[0]); }, 100000); wpost(q, 1, 1); q.interruptible_post([] { body(0, 2, pay[2]); }, 0); wpost(q, 0, 3); q = pool_t(); } asym_window(0); once_all(4); order(1, 0, 1); order(0, 2, 3); asym_reach("end"); }
// the answers to a servant's tasks
static std::atomic<bool> busy{false}; static std::promise<void>* pr_;
struct tserv : ba::trackable_servant<> { typedef int requires_weak_scheduler; tserv(ba::any_weak_scheduler<> s, pool_t w) : ba::trackable_servant<>(s, w) {}
    void go() { this->post_callback([] { return pay[0]; }, [](ba::expected<int> e) { CHECK(!busy, "a servant's callback overlaps with another task of its world"); got[0] = e.get(); st_[0]++; pr_->set_value(); }); }
    void work() { busy = true; boost::this_thread::yield(); boost::this_thread::yield(); busy = false; }
    void gop() { this->post_callback([] { return pay[0]; }, [](ba::expected<int> e) { int v = e.get(); body(1, 0, v); pr_->set_value(); }, "", 0, 100000); } void workp() { body(1, 1, pay[1]); } };
struct tprox : ba::servant_proxy<tprox, tserv> { tprox(pool_t s, std::size_t w, pool_t p) : ba::servant_proxy<tprox, tserv>(std::make_tuple(s, w), p) {} BOOST_ASYNC_FUTURE_MEMBER(go) BOOST_ASYNC_FUTURE_MEMBER(work) BOOST_ASYNC_FUTURE_MEMBER(gop) BOOST_ASYNC_FUTURE_MEMBER(workp) };
extern "C" void mt_callback() { inputs(); std::promise<void> d; auto fd = d.get_future(); pr_ = &d; pool_t p = mk_mt(2, 2), w = mk_tp(1); { tprox x(p, 1, w); p = pool_t(); w = pool_t(); asym_window(1); x.go(); auto f = x.work(); f.get(); fd.get(); } asym_window(0); once_all(1); asym_reach("end"); }
extern "C" void mt_cbprio() { inputs(); std::promise<void> d; auto fd = d.get_future(); pr_ = &d; pool_t p = mk_mt(2, 2), w = mk_tp(1); { tprox x(p, 1, w); p = pool_t(); w = pool_t(); asym_window(1); x.gop(); auto f = x.workp(); f.get(); fd.get(); } asym_window(0); once_all(2); asym_reach("end"); }
