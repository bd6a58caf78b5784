//@ basics reach=end,threw | tasks posted with a future, plainly, with a name or through a locked weak scheduler run once, in a thread of the pool, with their outcome | 1..3 workers, symbolic payload, throwing or not, 4 ways to post, 4 priorities
//@ all reach=end,threw | execute_in_all_threads: once in every thread of the pool, one future each with the outcome | 1..3 workers, symbolic payload, throwing or not
//@ all_conc reach=end preempt=2 t.preempt=3 rc time=250 | the same while the threads look for work at each other's | 2 workers
//@ all_shut reach=end preempt=2 t.preempt=3 rc time=250 | the last proxy goes right after the call | 2 workers
//@ shut reach=end preempt=2 t.preempt=3 rc races time=250 | the last proxy goes while tasks wait: all of them run, then the threads end | 2 workers, 2 tasks
//@ names reach=end | set_name, processor_bind and the queue sizes disturb no task | 1..3 workers
//@ inter reach=end,ran,interrupted preempt=2 t.preempt=3 rc time=250 | an interruptible task is interrupted before or while it runs, or not at all | 1 worker
//@ cont reach=end | continuations and parallel algorithms run on it | 1..2 workers, 4 symbolic elements
//@ steal idle=100 reach=end | in a composite pool its threads do the work of another pool which has no thread | 1..2 workers, started at once or by the composite, 3 tasks
//@ steal_end idle=200 reach=end preempt=2 t.preempt=3 time=250 | the threads of a composite end with it | 1 worker, started at once or by the composite
#include "pools.h"
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/post.hpp>
inline pool_t mk_asio(int n, bool now = true) { return ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<ba::sequential_push_policy>, nosave>>(n, now); }
static void nap() { for (int i = 0; i < 12; ++i) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); }
#define DONE() CHECK(asym_nthreads() == 1, "a thread outlives its scheduler")
static bool in_pool(pool_t const& p) { auto ids = p.thread_ids(); return std::find(ids.begin(), ids.end(), boost::this_thread::get_id()) != ids.end(); }
extern "C" void basics() { int n = 1 + sym_choice("workers", 3), way = sym_choice("way", 4), prio = sym_choice("prio", 4); bool thr = sym_flip("throws"); int v = sym_i32("payload"); std::atomic<int> c{0}; bool in = false;
    { pool_t p = mk_asio(n); CHECK((int)p.thread_ids().size() == n, "number of threads"); std::promise<int> pr; auto fu = pr.get_future(); auto task = [&] { c++; in = in_pool(p); if (thr) throw std::runtime_error("x"); return v ^ 5; }; auto plain = [&] { c++; in = in_pool(p); pr.set_value(v ^ 5); if (thr) throw std::runtime_error("x"); };
        std::future<int> f; if (way == 0) f = ba::post_future(p, task, "", prio); else { f = std::move(fu); if (way == 1) p.post(plain, prio); else if (way == 2) p.post(plain); else { auto l = p.get_weak_scheduler().lock(); l.post(plain, prio); } }
        bool t = false; try { CHECK(f.get() == (v ^ 5), "value"); } catch (std::runtime_error&) { t = true; asym_reach("threw"); } CHECK(t == (thr && way == 0), "outcome"); ba::post_future(p, [] {}).get(); }
    CHECK(c == 1 && in, "not run once in the pool"); DONE(); asym_reach("end"); }
static std::mutex mx; static std::vector<boost::thread::id> seen; static void note() { std::lock_guard<std::mutex> g(mx); seen.push_back(boost::this_thread::get_id()); }
static void each(std::vector<boost::thread::id> ids) { std::sort(ids.begin(), ids.end()); std::sort(seen.begin(), seen.end()); CHECK(ids == seen, "the callable did not run once in every thread of the pool"); }
extern "C" void all() { int n = 1 + sym_choice("workers", 3); bool thr = sym_bool("throws"); int v = sym_i32("payload"); static int bad; bad = 0; seen.clear();
    { pool_t p = mk_asio(n); auto r = p.execute_in_all_threads([=] { note(); if (thr) throw std::logic_error("x"); if ((v ^ 3) != (v ^ 3)) bad++; }); CHECK((int)r.size() == n, "not one future per thread"); for (auto& x : r) { bool t = false; try { x.get(); } catch (std::logic_error&) { t = true; asym_reach("threw"); } CHECK(t == thr, "outcome"); } each(p.thread_ids()); }
    DONE(); asym_reach("end"); }
extern "C" void all_conc() { seen.clear(); { pool_t p = mk_asio(2); asym_window(1); auto r = p.execute_in_all_threads([] { note(); }); for (auto& x : r) x.get(); asym_window(0); each(p.thread_ids()); } DONE(); asym_reach("end"); }
extern "C" void all_shut() { seen.clear(); std::vector<boost::thread::id> ids; std::vector<std::future<void>> r; { pool_t p = mk_asio(2); ids = p.thread_ids(); asym_window(1); r = p.execute_in_all_threads([] { note(); }); } asym_window(0); for (auto& x : r) x.get(); each(ids); DONE(); asym_reach("end"); }
extern "C" void shut() { static std::atomic<int> c[3]; for (auto& x : c) x = 0; { pool_t p = mk_asio(2); asym_window(1); p.post([] { c[0]++; }); p.post([] { c[1]++; }, 2); } asym_window(0); CHECK(c[0] == 1 && c[1] == 1, "a posted task was not executed once"); DONE(); asym_reach("end"); }
extern "C" void names() { int n = 1 + sym_choice("workers", 3); int c = 0; { pool_t p = mk_asio(n); p.set_name("worker"); p.processor_bind({{0, 2}}); p.get_queue_size(); p.reset_max_queue_size(); ba::post_future(p, [&] { c++; }).get(); } CHECK(c == 1, "a task was lost"); DONE(); asym_reach("end"); }
extern "C" void inter() { static std::atomic<int> st; st = 0; bool thr = false; { pool_t p = mk_asio(1); asym_window(1); auto t = ba::interruptible_post_future(p, [] { st = 1; boost::this_thread::interruption_point(); st = 2; return 7; }); std::get<1>(t).interrupt(); try { CHECK(std::get<0>(t).get() == 7, "value"); asym_reach("ran"); } catch (std::exception&) { thr = true; } catch (...) { thr = true; } asym_window(0); if (thr) { CHECK(st != 2, "interrupted but complete"); asym_reach("interrupted"); } else CHECK(st == 2, "not complete"); CHECK(ba::post_future(p, [] { boost::this_thread::interruption_point(); return 3; }).get() == 3, "the interruption hit another task"); } DONE(); asym_reach("end"); }
extern "C" void cont() { int n = 1 + sym_choice("workers", 2); std::vector<int> v; for (int i = 0; i < 4; ++i) v.push_back(sym_i32("v")); auto w = v; { pool_t p = mk_asio(n); auto f = ba::post_future(p, [&] { return ba::parallel_reduce(v.begin(), v.end(), [](int a, int b) { return a ^ b; }, 1); }); CHECK(f.get() == (w[0] ^ w[1] ^ w[2] ^ w[3]), "reduction");
        ba::post_future(p, [&] { return ba::parallel_for(v.begin(), v.end(), [](int& x) { x ^= 1; }, 2); }).get(); for (int i = 0; i < 4; ++i) CHECK(v[i] == (w[i] ^ 1), "for"); } DONE(); asym_reach("end"); }
extern "C" void steal() { int n = 1 + sym_choice("workers", 2); bool now = sym_flip("at once"); std::atomic<int> c{0}, in{0}; { pool_t a = mk_tp(0), b = mk_asio(n, now); pool_t m = mk_comp(a, b); CHECK((int)b.thread_ids().size() == n, "number of threads"); std::future<int> f[3]; for (int i = 0; i < 3; ++i) f[i] = ba::post_future(i == 2 ? b : a, [&, i] { c++; in += in_pool(b); return i; }); for (int i = 0; i < 3; ++i) CHECK(f[i].get() == i, "value"); } CHECK(c == 3 && in == 3, "not run once by the asio pool"); nap(); DONE(); asym_reach("end"); }
extern "C" void steal_end() { bool now = sym_flip("at once"); std::atomic<int> c{0}; { pool_t a = mk_tp(1), b = mk_asio(1, now); pool_t m = mk_comp(a, b); asym_window(1); m.post([&] { c++; }, 1); m.post([&] { c++; }, 2); } nap(); asym_window(0); CHECK(c == 2, "not run once"); DONE(); asym_reach("end"); }
