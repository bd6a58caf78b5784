//@ grow idle=400 reach=end,grown,full time=250 | tasks which block: the pool keeps its minimum, grows when two tasks wait, never beyond its maximum; tasks finish in any order, threads above the minimum end when idle; then once more | minimum 1..2, maximum minimum..minimum+2, up to 4 blocking tasks per round, 2 rounds, any release order
//@ limits idle=400 reach=end | minimum and maximum given in any order | 1..3 both, 5 tasks
//@ all idle=400 reach=end,temp time=250 | execute_in_all_threads while threads above the minimum are there: every future becomes ready, threads started later run the callable too (it may throw) | minimum 1..2, 1 or 2 threads above it
//@ cont idle=400 reach=end | a task in a thread above the minimum leaves a continuation waiting for futures | minimum 1, maximum 2, 1 or 2 futures set later, value or exception
//@ inter preempt=1 t.preempt=2 rc races time=250 | post, growth, shrinking and shutdown interleaved | minimum 1, maximum 2, 3 tasks, 1 (thorough 2) preemptions
//@ again q.preempt=0 t.preempt=1 rc races time=250 | a second round of posts while the threads of the first are ending | minimum 1, maximum 2, 2+2 tasks, 0 (thorough 1) preemptions plus all switches at blocking
//@ posters q.preempt=0 t.preempt=1 rc races time=250 | two threads post at once | minimum 1, maximum 2, 2+2 tasks, 0 (thorough 1) preemptions plus all switches at blocking
//@ stop idle=400 reach=end,grown | shutdown while tasks run in threads above the minimum and others wait | minimum 1, maximum 1..3, 4 tasks
//@ intr idle=400 reach=end time=250 | a task running in a thread above the minimum is interrupted; the pool goes on | minimum 1, maximum 2
#include "pools.h"
#include <boost/asynchronous/continuation_task.hpp>
static void nap() { for (int i = 0; i < 12; i++) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); }
static void until(std::function<bool()> f) { for (int i = 0; i < 100 && !f(); i++) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); }
static int V[8], G[8]; static bool T[8]; static std::atomic<int> cnt[8]; static std::atomic<int> running{0}; static std::atomic<bool> go[8], st[8];
static void reset(int n) { for (int i = 0; i < n; i++) { V[i] = sym_i32("payload"); T[i] = i == 1 ? sym_bool("throws") : false; G[i] = ~V[i]; cnt[i] = 0; go[i] = false; st[i] = false; } }
static int MAX; static auto task(int i) { return [i] { int r = ++running; CHECK(r <= MAX, "more tasks run at once than the pool may have threads"); st[i] = true; while (!go[i]) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); --running; cnt[i]++; G[i] = V[i]; if (T[i]) throw std::runtime_error("task"); }; }
static void verdict(int n) { for (int i = 0; i < n; i++) { CHECK(cnt[i] == 1, "a task was not executed exactly once"); CHECK(G[i] == V[i], "a task did not work on its own data"); } }
static void within(pool_t& p, int m, int M) { int n = p.thread_ids().size(); CHECK(n >= m, "fewer threads than the minimum"); CHECK(n <= M, "more threads than the maximum"); }
extern "C" void grow() {
    int m = 1 + sym_choice("min", 2), M = m + sym_choice("extra", 3); MAX = M; int N = m + 2; { pool_t p = mk_io(m, M); CHECK((int)p.thread_ids().size() == m, "the pool does not start with its minimum of threads");
        for (int round = 0; round < 2; round++) {
            reset(N); for (int i = 0; i < m; i++) { p.post(task(i)); until([i] { return (bool)st[i]; }); CHECK(st[i], "a task waits although a thread is free"); within(p, m, M); }
            for (int i = m; i < N; i++) { p.post(task(i)); within(p, m, M); } nap(); within(p, m, M);
            int r = running; if (M > m) { CHECK(r > m, "two tasks wait and the pool did not grow"); asym_reach("grown"); } else CHECK(r == M, "not all threads work"); if (r == M) asym_reach("full");
            std::vector<int> left; for (int i = 0; i < N; i++) left.push_back(i); while (!left.empty()) { std::vector<int> c; for (int i : left) if (st[i]) c.push_back(i); CHECK(!c.empty(), "tasks wait and no thread takes them"); int k = c[round || c.size() == 1 ? 0 : sym_choice("next", (unsigned)c.size())]; go[k] = true; left.erase(std::find(left.begin(), left.end(), k)); nap(); within(p, m, M); CHECK(cnt[k] == 1, "a task did not finish"); }
            verdict(N); nap(); CHECK((int)p.thread_ids().size() == m, "threads above the minimum did not end"); CHECK(p.get_queue_size()[0] == 0, "tasks are left"); } }
    CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end");
}
extern "C" void limits() {
    int a = 1 + sym_choice("a", 3), b = 1 + sym_choice("b", 3), m = std::min(a, b), M = std::max(a, b); MAX = M; reset(5); { pool_t p = mk_io(a, b); CHECK((int)p.thread_ids().size() == m, "the pool does not start with its minimum of threads"); for (int i = 0; i < 5; i++) { p.post(task(i)); nap(); within(p, m, M); } for (auto& g : go) g = true; } verdict(5); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end");
}
static thread_local bool init_; static thread_local bool old_;
extern "C" void all() {
    int m = 1 + sym_choice("min", 2), M = m + 1 + sym_choice("extra", 2); bool thr = sym_flip("throws"); MAX = M; int N = m + 3; reset(N); std::atomic<int> runs{0}; { pool_t p = mk_io(m, M);
        for (int i = 0; i < m; i++) { p.post([i] { old_ = true; task(i)(); }); nap(); } for (int i = m; i < N; i++) { p.post([i] { old_ = true; task(i)(); }); } nap(); if ((int)p.thread_ids().size() > m) asym_reach("temp");
        auto f = p.execute_in_all_threads([&, thr] { init_ = true; runs++; if (thr) throw std::runtime_error("init"); }); for (auto& g : go) g = true; nap();
        int n = 0; for (auto& x : f) { CHECK(x.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a future of execute_in_all_threads never becomes ready"); bool t = false; try { x.get(); } catch (std::runtime_error&) { t = true; } CHECK(t == thr, "the callable's outcome is lost"); n++; } CHECK(n >= m, "fewer futures than threads"); CHECK(runs >= m, "the callable did not run in every thread");
        verdict(N); reset(N); std::atomic<int> bad{0}; for (int i = 0; i < m; i++) { p.post([&, i] { if (!init_) bad++; task(i)(); }); nap(); } for (int i = m; i < N; i++) p.post([&, i] { if (!init_) bad++; task(i)(); }); nap(); for (auto& g : go) g = true; nap(); CHECK(bad == 0, "a thread did not run the callable before its tasks"); }
    verdict(N); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end");
}
extern "C" void cont() {
    int n = 1 + sym_choice("futures", 2); bool thr = sym_flip("exception"); int a = sym_i32("a"), b = sym_i32("b"); MAX = 2; reset(1); std::promise<int> P[2]; std::atomic<int> calls{0}; { pool_t p = mk_io(1, 2); p.post(task(0)); until([] { return (bool)st[0]; });
        std::promise<int> res; auto rf = res.get_future(); boost::thread::id where; auto cont = [&] { where = boost::this_thread::get_id(); auto done = [&](auto t) { calls++; try { int s = std::get<0>(t).get(); if constexpr (std::tuple_size<decltype(t)>::value > 1) s ^= std::get<1>(t).get(); res.set_value(s); } catch (...) { res.set_exception(std::current_exception()); } };
            if (n == 1) ba::create_continuation(done, P[0].get_future()); else ba::create_continuation(done, P[0].get_future(), P[1].get_future()); };
        p.post(cont); p.post([] {}); nap(); CHECK(where != boost::thread::id(), "two tasks wait and the pool did not grow"); CHECK(calls == 0, "the continuation ran before its futures were ready");
        if (n == 2) P[1].set_value(b); nap(); if (thr) P[0].set_exception(std::make_exception_ptr(std::runtime_error("x"))); else P[0].set_value(a); until([&] { return calls > 0; }); CHECK(calls == 1, "the continuation left by a task of a thread above the minimum is lost");
        bool t = false; int v = 0; try { v = rf.get(); } catch (std::runtime_error&) { t = true; } CHECK(t == thr, "a value instead of an exception or the reverse"); if (!t) CHECK(v == (n == 2 ? (a ^ b) : a), "wrong result"); nap(); CHECK(p.thread_ids().size() == 1, "threads above the minimum did not end"); go[0] = true; }
    verdict(1); CHECK(calls == 1, "the continuation ran twice"); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end");
}
static int c3[4]; static std::atomic<int> d3{0}; static void one(int i) { c3[i]++; d3++; }
static void clear3() { for (int& c : c3) c = 0; d3 = 0; }
static void verdict3(int n) { asym_window(0); for (int i = 0; i < n; i++) CHECK(c3[i] == 1, "a task was not executed exactly once"); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end"); }
extern "C" void inter() { clear3(); { pool_t p = mk_io(1, 2); asym_window(1); for (int i = 0; i < 3; i++) p.post([i] { one(i); }); } verdict3(3); }
extern "C" void again() { clear3(); { pool_t p = mk_io(1, 2); asym_window(1); for (int i = 0; i < 2; i++) p.post([i] { one(i); }); while (d3 < 2) boost::this_thread::yield(); for (int i = 2; i < 4; i++) p.post([i] { one(i); }); } verdict3(4); }
extern "C" void posters() { clear3(); { pool_t p = mk_io(1, 2); asym_window(1); boost::thread t([q = p]() mutable { pool_t z = std::move(q); for (int i = 2; i < 4; i++) z.post([i] { one(i); }); }); for (int i = 0; i < 2; i++) p.post([i] { one(i); }); t.join(); } verdict3(4); }
extern "C" void stop() { int M = 1 + sym_choice("max", 3); MAX = M; reset(4); { pool_t p = mk_io(1, M); for (int i = 0; i < 4; i++) p.post(task(i)); nap(); within(p, 1, M); if (running > 1) asym_reach("grown"); unsigned n = sym_choice("released", 3); for (unsigned i = 0; i < n; i++) go[i] = true; boost::thread([] { nap(); for (auto& g : go) g = true; }).detach(); } verdict(4); nap(); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end"); }
extern "C" void intr() { MAX = 3; reset(3); { pool_t p = mk_io(1, 2); p.post(task(0)); until([] { return (bool)st[0]; }); p.post(task(1)); std::atomic<bool> in{false}, stopped{false}; int x = sym_choice("when", 2); auto i = p.interruptible_post([&] { in = true; try { boost::this_thread::sleep_for(boost::chrono::hours(1)); } catch (boost::thread_interrupted&) { stopped = true; throw; } }); go[1] = true; if (x) until([&] { return (bool)in; }); i.interrupt(); nap(); CHECK(x == 0 || stopped, "the task was not interrupted"); CHECK(in == stopped, "the task was started and not interrupted"); p.post(task(2)); go[2] = true; nap(); go[0] = true; } verdict(3); CHECK(asym_nthreads() == 1, "a thread outlives the pool"); asym_reach("end"); }
