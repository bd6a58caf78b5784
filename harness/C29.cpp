//@ find reach=end,any,clip | the position chosen for an index lies in the pool and is the one asked for, whatever the policy answers | every size_t index and pool count >= 1 (<= 8, thorough 64, with index 0), every size_t answer of the policy
//@ route reach=end,any,clip time=250 | a task posted to a composite of three pools through proxy, weak scheduler, post_future, interruptible_post runs once, in the pool asked for or in a stealing pool | every arrangement of 3 neighbours among the 7 kinds, every size_t index, every size_t answer of the policy
//@ matrix reach=end,stolen,kept time=250 | the task of a pool whose worker is busy is taken over by an idle stealing pool if the pool lends its queue, and by nobody else | every kind of victim, every kind of other pool, either order
//@ mixed reach=end,stolen time=250 | pools with different job types in one composite: each lends to the stealing pool of the composite's own type | 4 victim kinds, either order
//@ report reach=end | sizes, maximum sizes, thread ids, get_scheduler, names, execute_in_all_threads of composite and its locked weak scheduler are those of the sub-pools | every arrangement of 3 neighbours among the 7 kinds, up to 3 waiting tasks
//@ life reach=end,gone | validity of composite, its copies and weak schedulers from creation to the last proxy | 2 pools of every kind
//@ once q.preempt=0 t.preempt=1 reach=end time=250 rc | tasks posted to a lending pool and two stealing ones, shut down at once, run exactly once | 3 pools with 1 worker each, 2 tasks for the same pool, 0 (thorough 1) preemptions plus all switches at blocking
//@ threads preempt=1 t.preempt=2 reach=end time=250 rc | two threads post to the composite at once | 2 pools with 1 worker each, 2+1 tasks, 1 (thorough 2) preemptions
#include "pools.h"
#include <boost/asynchronous/queue/queue_converter.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
enum { SINGLE, TP, MQ, MT, IO, ST, SMQ };
static size_t picked; struct anypos { size_t find_any_position() const { picked = asym_make("any", 64); asym_reach("any"); return picked; } };
typedef ba::default_find_position<anypos> findany;
typedef ba::composite_threadpool_scheduler<BOOST_ASYNCHRONOUS_DEFAULT_JOB, findany> comp_t;
static pool_t mk(int k, int n = 1) { switch (k) { case SINGLE: return mk_single(); case TP: return mk_tp(n); case MQ: return mk_mq(n); case MT: return mk_mt(n, 2); case IO: return mk_io(n, n); case ST: return mk_st_sub(n); default: return mk_smq_sub(n); } }
static bool lends(int k) { return k == TP || k == MQ || k == ST || k == SMQ; }
static bool steals(int k) { return k == ST || k == SMQ; }
static size_t sym_idx() { return asym_make("index", 64); }
static void nap() { for (int i = 0; i < 12; i++) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); }
static bool in(pool_t& p, boost::thread::id t) { for (auto i : p.thread_ids()) if (i == t) return true; return false; }

template<class P> void find_() {
    ba::default_find_position<P> f; size_t k = sym_idx(), n = asym_make("pools", 64); asym_assume((n >= 1) & ((k != 0) | (n <= (TIER ? 64 : 8)))); size_t r = f.find_position(k, n);
    CHECK(r < n, "the position lies outside the pools"); bool z = asym_conc(k == 0) != 0; if (z) { asym_reach("any"); } else if (asym_conc(k <= n) != 0) CHECK(r == k - 1, "not the pool asked for"); else { asym_reach("clip"); CHECK(r == n - 1, "an index beyond the pools did not go to the last one"); }
}
extern "C" void find() { switch (sym_choice("policy", 3)) { case 0: find_<anypos>(); break; case 1: find_<ba::sequential_push_policy>(); break; case 2: find_<ba::default_random_push_policy<>>(); } asym_reach("end"); }

static boost::thread::id who; static int ran; static int got;
extern "C" void route() {
    int a = sym_choice("arrangement", 7); int kind[3]; pool_t s[3]; for (int i = 0; i < 3; i++) { kind[i] = (a + i) % 7; s[i] = mk(kind[i]); }
    pool_t p = ba::make_shared_scheduler_proxy<comp_t>(s[0], s[1], s[2]);
    size_t k = sym_idx(); int how = sym_choice("how", 6); int v = sym_i32("payload"); ran = 0; got = ~v; picked = 0; bool noprio = how >= 4; if (noprio) asym_assume(k == 0); if (kind[2] == MT) asym_assume(k < 200000); // a multiple_thread_scheduler of 2 worlds reads the world out of the index
    std::promise<void> done; auto fu = done.get_future(); auto job = [&] { who = boost::this_thread::get_id(); ran++; got = v; done.set_value(); };
    switch (how) {
        case 0: p.post(job, k); break;
        case 1: { auto f = ba::post_future(p, job, "", k); f.get(); break; }
        case 2: { auto i = p.interruptible_post(job, k); break; }
        case 3: { auto l = p.get_weak_scheduler().lock(); CHECK(l.is_valid(), "the composite's weak scheduler cannot be locked"); l.post(job, k); break; }
        case 4: p.post(job); break;
        case 5: { auto l = p.get_weak_scheduler().lock(); auto i = l.interruptible_post(job); break; }
    }
    fu.get(); bool z = asym_conc(k == 0) != 0; size_t w; if (z) w = asym_conc(picked % 3); else if (asym_conc(k > 3) != 0) { w = 2; asym_reach("clip"); } else w = asym_conc(k) - 1;
    int at = -1; for (int i = 0; i < 3; i++) if (in(s[i], who)) { CHECK(at < 0, "two pools claim the thread"); at = i; }
    CHECK(at >= 0, "the task ran outside the composite's pools");
    if (at != (int)w) { CHECK(steals(kind[at]) && lends(kind[w]), "the task ran in a pool it was not posted to"); asym_reach("stolen"); }
    p = pool_t(); for (auto& x : s) x = pool_t(); CHECK(ran == 1, "the task did not run exactly once"); CHECK(got == v, "the task did not work on its own data"); asym_reach("end");
}

// the victim's worker is busy, a second task waits in its queue, the other pool is idle
template<class C, class V, class O> void busy(C& p, V& vic, O& oth, int vi, bool may) {
    std::promise<void> go; auto wait = go.get_future().share(); std::atomic<bool> started{false}; std::atomic<int> n{0}; boost::thread::id t0, t1; auto ids = oth.thread_ids(); auto own = vic.thread_ids();
    auto has = [](auto const& v, boost::thread::id t) { for (auto i : v) if (i == t) return true; return false; };
    // blocked in the victim's own thread: execute_in_all_threads is never stolen
    auto fs = vic.execute_in_all_threads([&] { t0 = boost::this_thread::get_id(); started = true; wait.get(); }); while (!started) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); CHECK(has(own, t0), "the blocking task is not in the victim's thread");
    auto fu = ba::post_future(p, [&] { t1 = boost::this_thread::get_id(); n++; }, "waiting", vi); nap();
    if (may) { CHECK(n == 1, "an idle stealing pool did not take over a waiting task of a lending pool"); CHECK(has(ids, t1), "the stolen task ran elsewhere"); asym_reach("stolen"); }
    else { CHECK(n == 0, "a task was taken by a pool which may not steal, or from one which does not lend"); asym_reach("kept"); }
    go.set_value(); for (auto& f : fs) f.get(); while (n == 0) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); CHECK(may || has(own, t1), "the task ran outside the pool it was posted to");
    p = C(); CHECK(n == 1, "the task did not run exactly once");
}
extern "C" void matrix() {
    int v = sym_choice("victim", 7), o = sym_choice("other", 7); bool first = sym_flip("first"); { pool_t a = mk(v), b = mk(o); pool_t p = first ? ba::make_shared_scheduler_proxy<comp_t>(a, b) : ba::make_shared_scheduler_proxy<comp_t>(b, a); busy(p, a, b, first ? 1 : 2, lends(v) && steals(o)); } asym_reach("end");
}
typedef ba::any_loggable logj; typedef ba::any_shared_scheduler_proxy<logj> lpool_t; typedef ba::guarded_deque<logj> lgd;
extern "C" void mixed() {
    int kind = sym_choice("victim", 4); bool first = sym_flip("first"); {
        lpool_t a; switch (kind) { case 0: a = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<lgd, nosave>>(1); break; case 1: a = ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<lgd, seqpos, nosave>>(1); break; case 2: a = ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<lgd, nosave, true>>(1); break; case 3: a = ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<lgd, seqpos, nosave, true>>(1); }
        pool_t b = mk_st_sub(1); pool_t p = first ? ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a, b) : ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(b, a);
        CHECK(p.thread_ids().size() == 1 && p.thread_ids()[0] == b.thread_ids()[0], "the composite does not consist of the pools of its own job type");
        busy(a, a, b, 0, true); b = pool_t(); } asym_reach("end");
}
extern "C" void report() {
    int a = sym_choice("arrangement", 7); int kind[3]; pool_t s[3]; for (int i = 0; i < 3; i++) { kind[i] = (a + i) % 7; s[i] = mk(kind[i]); }
    pool_t p = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(s[0], s[1], s[2]); auto l = p.get_weak_scheduler().lock(); CHECK(l.is_valid(), "the composite's weak scheduler cannot be locked");
    std::vector<boost::thread::id> want; for (auto& x : s) { auto v = x.thread_ids(); want.insert(want.end(), v.begin(), v.end()); } auto g1 = p.thread_ids(), g2 = l.thread_ids(); CHECK(g1 == want, "the composite's thread ids are not those of its pools"); CHECK(g2 == want, "the locked weak scheduler's thread ids are not those of its pools");
    bool viaw = sym_flip("weak"); std::mutex m; std::vector<boost::thread::id> seen; { auto f = viaw ? l.execute_in_all_threads([&] { std::lock_guard<std::mutex> g(m); seen.push_back(boost::this_thread::get_id()); }) : p.execute_in_all_threads([&] { std::lock_guard<std::mutex> g(m); seen.push_back(boost::this_thread::get_id()); }); CHECK(f.size() == want.size(), "execute_in_all_threads: one future per thread"); for (auto& x : f) x.get(); } std::sort(seen.begin(), seen.end()); std::sort(want.begin(), want.end()); CHECK(seen == want, "execute_in_all_threads did not run once in every thread");
    // keep every worker busy, let tasks wait
    std::promise<void> go; auto wait = go.get_future().share(); std::atomic<int> st{0}; auto fs = p.execute_in_all_threads([&] { st++; wait.get(); }); while (st < (int)want.size()) boost::this_thread::sleep_for(boost::chrono::milliseconds(10));
    p.reset_max_queue_size(); size_t n[3] = {}; for (int i = 0; i < 3; i++) { unsigned k = sym_choice("index", 3); (i % 2 ? l.post([] {}, 1 + k) : p.post([] {}, 1 + k)); n[k]++; }
    auto q1 = p.get_queue_size(), q2 = l.get_queue_size(), m1 = p.get_max_queue_size(), m2 = l.get_max_queue_size(); CHECK(q1.size() == 3 && q2.size() == 3 && m1.size() == 3 && m2.size() == 3, "one queue size per pool");
    for (int i = 0; i < 3; i++) { CHECK(q1[i] == n[i], "composite: wrong queue size"); CHECK(q2[i] == n[i], "weak composite: wrong queue size"); CHECK(m1[i] == m2[i] && m1[i] <= n[i] && m1[i] + 1 >= n[i], "wrong maximum queue size"); auto sub = s[i].get_max_queue_size(); size_t mx = 0; for (auto x : sub) mx = std::max(mx, x); CHECK(m1[i] == mx, "the maximum queue size is not that of the pool"); }
    go.set_value(); for (auto& f : fs) f.get(); l = ba::any_shared_scheduler<>(); p = pool_t(); asym_reach("end");
}
extern "C" void life() {
    int k1 = sym_choice("a", 7), k2 = sym_choice("b", 7); ba::any_weak_scheduler<> w; {
        pool_t p; CHECK(!p.is_valid(), "an empty proxy is valid"); { pool_t a = mk(k1), b = mk(k2); auto c = std::make_shared<ba::composite_threadpool_scheduler<>>(a, b); CHECK(c->get_scheduler(1).thread_ids() == a.thread_ids(), "get_scheduler(1) is not the first pool"); CHECK(c->get_scheduler(2).thread_ids() == b.thread_ids(), "get_scheduler(2) is not the second pool"); p = pool_t(c); }
        CHECK(p.is_valid(), "a composite of two pools is not valid"); w = p.get_weak_scheduler(); CHECK(w.lock().is_valid(), "a living composite cannot be locked"); pool_t q = p; p = pool_t(); CHECK(w.lock().is_valid(), "a composite with another proxy cannot be locked"); std::atomic<int> n{0}; w.lock().post([&] { n++; }, 2); q.post([&] { n++; }, 1); auto f = ba::post_future(q, [] { return 5; }, "", 2); CHECK(f.get() == 5, "wrong result"); q = pool_t(); CHECK(n == 2, "a task posted before the last proxy went did not run"); }
    CHECK(!w.lock().is_valid(), "a composite without proxies is valid"); asym_reach("gone"); CHECK(asym_nthreads() == 1, "a worker outlives the composite"); asym_reach("end");
}
static int cnt[3];
extern "C" void once() { int pos = 1 + sym_choice("index", 3); for (auto& c : cnt) c = 0; { pool_t p; { pool_t a = mk_tp(1), b = mk_st_sub(1), c = mk_smq_sub(1); p = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a, b, c); } asym_window(1); for (int i = 0; i < 2; i++) p.post([i] { cnt[i]++; }, pos); } asym_window(0); cnt[2]++; for (int c : cnt) CHECK(c == 1, "a task did not run exactly once"); CHECK(asym_nthreads() == 1, "a worker outlives the composite"); asym_reach("end"); }
extern "C" void threads() { for (auto& c : cnt) c = 0; { pool_t p; { pool_t a = mk_tp(1), b = mk_st_sub(1); p = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(a, b); } asym_window(1); boost::thread t([q = p]() mutable { pool_t z = std::move(q); z.post([] { cnt[2]++; }, 1); }); for (int i = 0; i < 2; i++) p.post([i] { cnt[i]++; }, 1 + i); t.join(); } asym_window(0); for (int c : cnt) CHECK(c == 1, "a task did not run exactly once"); CHECK(asym_nthreads() == 1, "a worker outlives the composite"); asym_reach("end"); }
