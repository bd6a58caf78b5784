//@ kinds time=250 reach=end,threw | execute_in_all_threads through proxy or locked weak scheduler: once in every thread of the pool, in no other, one future each with the outcome | 9 kinds of pool, 1..3 workers, callable throwing or not
//@ order reach=end | two calls: every thread runs them in this order, also with tasks waiting before and after | 9 kinds of pool, 1..2 workers
//@ inside reach=end | called by a task of the pool itself | 9 kinds of pool, 1..2 workers
//@ shut reach=end preempt=1 t.preempt=2 rc time=250 | the last proxy goes right after the call: every thread still runs the callable | thread pool with 2 workers, 1 task
//@ shut_kinds reach=end preempt=1 t.preempt=2 rc time=250 | same for the others | 8 kinds of pool
//@ conc reach=end q.preempt=0 t.preempt=1 rc races time=250 | a call interleaved with tasks posted by another thread | thread pool with 2 workers, 2 tasks
//@ names reach=end | set_name and processor_bind disturb no task and no other call | 9 kinds of pool, 2 workers
#include "pools.h"
static const int NK = 9;
static pool_t mk(int k, int n) { switch (k) { case 0: return mk_single(); case 1: return mk_tp(n); case 2: return mk_mq(n); case 3: return mk_mt(n, 2); case 4: return mk_io(n, n); case 5: return mk_st(n); case 6: return mk_smq(n); case 7: { pool_t a = mk_tp(n), b = mk_single(); return mk_comp(a, b); } default: { pool_t a = mk_st_sub(n), b = mk_mq(1); return mk_comp(a, b); } } }
static std::mutex mx; static std::vector<boost::thread::id> seen[2]; static std::vector<int> trace_; static void note(int i) { std::lock_guard<std::mutex> g(mx); seen[i].push_back(boost::this_thread::get_id()); }
static void each(pool_t& p, int i) { auto ids = p.thread_ids(); std::sort(ids.begin(), ids.end()); std::sort(seen[i].begin(), seen[i].end()); CHECK(ids == seen[i], "the callable did not run once in every thread of the pool"); }
static void clear() { for (auto& s : seen) s.clear(); trace_.clear(); }
extern "C" void kinds() {
    int k = sym_choice("kind", NK), n = 1 + sym_choice("workers", 3); bool thr = sym_bool("throws"), weak = sym_flip("weak"); int v = sym_i32("payload"); static std::atomic<int> bad; bad = 0; clear(); { pool_t p = mk(k, n); auto f = [v, w = v, thr] { note(0); if (v != w) bad++; if (thr) throw std::logic_error("init"); };
        std::vector<std::future<void>> r; if (weak) { auto l = p.get_weak_scheduler().lock(); r = l.execute_in_all_threads(f); } else r = p.execute_in_all_threads(f); CHECK(r.size() == p.thread_ids().size(), "not one future per thread");
        for (auto& x : r) { bool t = false; try { x.get(); } catch (std::logic_error&) { t = true; } catch (std::future_error&) { CHECK(false, "broken promise"); } CHECK(t == thr, "the callable's outcome is lost"); if (t) asym_reach("threw"); } each(p, 0); CHECK(bad == 0, "the callable's data changed");
        std::atomic<int> c{0}; ba::post_future(p, [&] { c++; }).get(); CHECK(c == 1, "the pool does not go on"); }
    CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end");
}
extern "C" void order() { int k = sym_choice("kind", NK), n = 1 + sym_choice("workers", 2); bool before = sym_flip("before"), after = sym_flip("after"); std::atomic<int> c{0}; clear(); { pool_t p = mk(k, n); auto run = [](int i) { return [i] { note(i); if (i) { std::lock_guard<std::mutex> g(mx); CHECK(std::count(seen[0].begin(), seen[0].end(), boost::this_thread::get_id()) == 1, "the second call overtook the first"); } }; };
        if (before) p.post([&] { c++; }, 1); auto a = p.execute_in_all_threads(run(0)); auto b = p.execute_in_all_threads(run(1)); if (after) p.post([&] { c++; }, 1); for (auto& x : b) x.get(); for (auto& x : a) CHECK(x.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the second call overtook the first"); each(p, 0); each(p, 1); }
    CHECK(c == before + after, "a task was lost"); asym_reach("end"); }
extern "C" void inside() { int k = sym_choice("kind", NK), n = 1 + sym_choice("workers", 2); clear(); std::vector<std::future<void>> r; { pool_t p = mk(k, n); auto w = p.get_weak_scheduler(); ba::post_future(p, [&] { r = w.lock().execute_in_all_threads([] { note(0); }); CHECK(r.size() == w.lock().thread_ids().size(), "not one future per thread"); }).get(); for (auto& x : r) x.get(); each(p, 0); } CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end"); }
static std::atomic<int> done{0};
static void shut_(int k, int n) { std::vector<std::future<void>> r; done = 0; int c = 0; size_t m; { pool_t p = mk(k, n); m = p.thread_ids().size(); asym_window(1); p.post([&] { c++; }); r = p.execute_in_all_threads([] { done++; }); } asym_window(0); CHECK(r.size() == m, "not one future per thread"); for (auto& x : r) { CHECK(x.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a future is left without answer after the shutdown"); try { x.get(); } catch (std::future_error&) { CHECK(false, "the callable did not run in every thread before the shutdown"); } } CHECK(done == (int)m, "not once in every thread"); CHECK(c == 1, "a task was lost"); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end"); }
extern "C" void shut() { shut_(1, 2); }
extern "C" void shut_kinds() { int k = sym_choice("kind", NK - 1); shut_(k ? k + 1 : 0, 1); }
extern "C" void conc() { done = 0; static int c[2]; c[0] = c[1] = 0; static int ran[2]; ran[0] = ran[1] = 0; { pool_t p = mk_tp(2); auto ids = p.thread_ids(); asym_window(1); boost::thread t([q = p]() mutable { pool_t z = std::move(q); for (int i = 0; i < 2; i++) z.post([i] { c[i]++; }); }); auto r = p.execute_in_all_threads([ids] { ran[boost::this_thread::get_id() == ids[0] ? 0 : 1]++; }); for (auto& x : r) x.get(); CHECK(ran[0] == 1 && ran[1] == 1, "not once in every thread"); t.join(); } asym_window(0); CHECK(c[0] == 1 && c[1] == 1, "a task was lost"); asym_reach("end"); }
extern "C" void names() { int k = sym_choice("kind", NK); clear(); std::atomic<int> c{0}; { pool_t p = mk(k, 2); p.post([&] { c++; }, 1); p.set_name("worker"); p.processor_bind({{0, 2}}); auto r = p.execute_in_all_threads([] { note(0); }); auto l = p.get_weak_scheduler().lock(); l.processor_bind({{0, 1}, {0, 5}}); p.post([&] { c++; }, 1); for (auto& x : r) x.get(); each(p, 0); l = ba::any_shared_scheduler<>(); } CHECK(c == 2, "a task was lost"); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end"); }
