//@ callable | any history of construct, move, copy, move-assign, copy-assign, swap, call and destroy on three any_callable | 4 operations (thorough 5), state symbolic
//@ loggable | the same on any_loggable jobs wrapped with their diagnostics | 4 operations (thorough 5), state symbolic
//@ binder | move_bind: bound move-only arguments first, call arguments last, each exactly once, whatever moves happened before the call | 3 operations (thorough 4), values symbolic
//@ results | move_bind returns the function's result, reference or void; works nested and through a queue and a pool | values symbolic
//@ queues time=60 | jobs moved through guarded_deque, threadsafe_list, lockfree_queue, lockfree_stack, lockfree_spsc_queue and a queue container: called with their own state, destroyed once | 3 jobs, 4 operations, state symbolic
//@ pool preempt=1 rc reach=end,ran | task posted to a pool with move-only state: run once, its state destroyed exactly once, before the future or the pool is gone at the latest; a throwing task as well | 1 worker, 1 preemption, values symbolic
#include "pools.h"
#include <boost/asynchronous/detail/move_bind.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
static int live[8], ran_[8], arg[8]; static void reset() { for (int i = 0; i < 8; i++) live[i] = ran_[i] = arg[i] = 0; }
// move-only state of job i
struct state { int i; int v; state(int i_, int v_) : i(i_), v(v_) { ++live[i]; } state(state&& o) noexcept : i(o.i), v(o.v) { o.i = -1; o.v = -1; } state& operator=(state&& o) noexcept { if (this != &o) { if (i >= 0) --live[i]; i = o.i; v = o.v; o.i = -1; o.v = -1; } return *this; } ~state() { if (i >= 0) --live[i]; i = -1; v = -2; } };
// as the library's own jobs: copying moves
struct fn { state s; fn(state x) : s(std::move(x)) {} fn(fn&&) = default; fn(fn const& o) : s(std::move(const_cast<fn&>(o).s)) {} fn& operator=(fn&&) = default; fn& operator=(fn const& o) { s = std::move(const_cast<fn&>(o).s); return *this; } void operator()() { CHECK(s.i >= 0, "a job ran with state that was moved away"); ran_[s.i]++; arg[s.i] = s.v; } };
struct wrap_call { typedef ba::any_callable J; static J mk(int i, int v) { return J(fn(state(i, v))); } };
struct wrap_log { typedef ba::any_loggable J; static J mk(int i, int v) { typedef ba::job_traits<ba::any_loggable>::diagnostic_type D; typedef ba::detail::base_job<D, fn> B; return J(B(fn(state(i, v)))); } };
template<class W> static void hist(int n) {
    reset(); typedef typename W::J J; int val[8]; int next = 0;
    { std::vector<std::unique_ptr<J>> o(3); int h[3] = {-1, -1, -1};      // -1: nothing callable inside
      for (int k = 0; k < n; k++) {
        unsigned op = sym_choice("op", 8), i = sym_choice("i", 3), j = op == 0 || op >= 6 ? i : (i + 1 + sym_choice("j", 2)) % 3; int hi = h[i];
        switch (op) {
          case 0: val[next] = sym_i32("v"); o[i].reset(); o[i].reset(new J(W::mk(next, val[next]))); h[i] = next++; break;
          case 1: if (!o[i]) asym_kill(); o[j].reset(); o[j].reset(new J(std::move(*o[i]))); h[j] = hi; h[i] = -1; break;
          case 2: if (!o[i] || hi < 0) asym_kill(); o[j].reset(); { J const& c = *o[i]; o[j].reset(new J(c)); } h[j] = hi; h[i] = -1; break;
          case 3: if (!o[i] || !o[j]) asym_kill(); { J t(std::move(*o[i])); *o[j] = std::move(t); } h[j] = hi; h[i] = -1; break;
          case 4: if (!o[i] || !o[j] || hi < 0) asym_kill(); { J const& c = *o[i]; *o[j] = c; } h[j] = hi; h[i] = -1; break;
          case 5: if (!o[i] || !o[j]) asym_kill(); std::swap(*o[i], *o[j]); std::swap(h[i], h[j]); break;
          case 6: if (!o[i] || hi < 0) asym_kill(); { int b = ran_[hi]; (*o[i])(); CHECK(ran_[hi] == b + 1, "another job or none was called"); CHECK(arg[hi] == val[hi], "called with another state"); } break;
          case 7: if (!o[i]) asym_kill(); o[i].reset(); h[i] = -1; break;
        }
        for (int x = 0; x < next; x++) { bool held = h[0] == x || h[1] == x || h[2] == x; if (held) CHECK(live[x] == 1, "the state of a job was destroyed or duplicated"); else CHECK(live[x] <= 1, "the state of a job was duplicated"); }
        for (int x = 0; x < 3; x++) if (h[x] >= 0 && sym_flip("peek")) break;
      } }
    for (int x = 0; x < next; x++) CHECK(live[x] == 0, "the state of a job leaked"); asym_reach("end");
}
extern "C" void callable() { hist<wrap_call>(4 + TIER); }
extern "C" void loggable() { hist<wrap_log>(4 + TIER); }
struct probe { int* out; probe(int* o) : out(o) {} template<class A, class B> int operator()(state a, state b, A x, B y) { CHECK(a.i == 0 && b.i == 1, "move_bind: arguments in the wrong order"); out[0] = a.v; out[1] = b.v; out[2] = x; out[3] = y.v; return a.v ^ b.v; } };
extern "C" void binder() {
    reset(); int v[4]; for (int& x : v) x = sym_i32("v"); int out[4] = {};
    { auto f = ba::move_bind(probe(out), state(0, v[0]), state(1, v[1])); typedef decltype(f) F; auto p = std::make_unique<F>(std::move(f));
      for (int k = 0; k < 3 + TIER; k++) switch (sym_choice("op", 4)) { case 0: break; case 1: p = std::make_unique<F>(std::move(*p)); break; case 2: { F const& c = *p; p = std::make_unique<F>(c); break; } case 3: { F other = ba::move_bind(probe(nullptr), state(2, 0), state(3, 0)); if (sym_flip("const")) { F const& c = *p; other = c; } else other = std::move(*p); p = std::make_unique<F>(std::move(other)); break; } }
      int r = (*p)(v[2], state(4, v[3])); CHECK(r == (v[0] ^ v[1]), "move_bind: wrong result"); for (int i = 0; i < 4; i++) CHECK(out[i] == v[i], "move_bind: argument changed"); }
    for (int x = 0; x < 8; x++) CHECK(live[x] == 0, "move_bind: a bound argument leaked or was destroyed twice"); asym_reach("end");
}
extern "C" void results() {
    reset(); int a = sym_i32("a"), b = sym_i32("b"), c = sym_i32("c"); static int ref; ref = c;
    { auto f0 = ba::move_bind([] { return 5; }); CHECK(f0() == 5, "move_bind without arguments"); auto f1 = ba::move_bind([](int x, int y) { return x - y; }, a, b); CHECK(f1() == (int)((unsigned)a - (unsigned)b), "move_bind: arguments swapped"); auto f2 = ba::move_bind([](int x, int y, int z) { return std::make_tuple(x, y, z); }, a, b); auto t = f2(c); CHECK(std::get<0>(t) == a && std::get<1>(t) == b && std::get<2>(t) == c, "move_bind: arguments in the wrong order");
      bool done = false; auto f3 = ba::move_bind([&](std::unique_ptr<int> u) { done = *u == a; }, std::unique_ptr<int>(new int(a))); f3(); CHECK(done, "move_bind: move-only argument lost");
      auto inner = ba::move_bind([](state s, int y) { return s.v ^ y; }, state(0, a)); auto f4 = ba::move_bind([](decltype(inner) g, int y) { return g(y); }, std::move(inner)); CHECK(f4(b) == (a ^ b), "move_bind: nested");
      auto p = fifo_pool(); auto fu = ba::post_future(p, ba::move_bind([](state s, std::unique_ptr<int> u) { return s.v ^ *u; }, state(1, b), std::unique_ptr<int>(new int(c)))); CHECK(fu.get() == (b ^ c), "move_bind: through a pool"); }
    CHECK(live[0] == 0 && live[1] == 0, "a bound argument leaked"); asym_reach("end");
}
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
static bool lifo, spsc;
template<class Q> static void through(Q& q) {
    int val[8], next = 0; std::deque<int> m; for (int k = 0; k < 4; k++) { if (m.empty() || (next < 3 && sym_flip("push"))) { val[next] = sym_i32("v"); ba::any_callable j = wrap_call::mk(next, val[next]); q.push(std::move(j)); m.push_back(next++); } else { ba::any_callable j; bool ok = !spsc && sym_flip("steal") ? q.try_steal(j) : q.try_pop(j); CHECK(ok, "job lost"); int x = lifo ? m.back() : m.front(); if (lifo) m.pop_back(); else m.pop_front(); j(); CHECK(ran_[x] == 1 && arg[x] == val[x], "another job or another state came out"); } for (int x : m) CHECK(live[x] == 1, "the state of a waiting job was destroyed or duplicated"); }
    for (int x = 0; x < next; x++) { bool w = false; for (int y : m) w |= y == x; if (!w) CHECK(live[x] == 0, "the queue keeps the state of a popped job"); }
}
extern "C" void queues() {
    reset(); lifo = spsc = false; switch (sym_choice("kind", 6)) { case 0: { ba::guarded_deque<ba::any_callable, 1> q; through(q); break; } case 1: { ba::threadsafe_list<ba::any_callable> q; through(q); break; } case 2: { ba::lockfree_queue<ba::any_callable> q(2); through(q); break; } case 4: { ba::lockfree_spsc_queue<ba::any_callable> q(4); spsc = true; through(q); break; } case 5: { ba::lockfree_stack<ba::any_callable> q(2); lifo = true; through(q); break; } case 3: { ba::any_queue_container<ba::any_callable> q(ba::any_queue_container_config<ba::guarded_deque<ba::any_callable, 1>>(1)); through(q); break; } }
    for (int x = 0; x < 8; x++) CHECK(live[x] == 0, "the state of a job leaked"); asym_reach("end");
}
extern "C" void pool() {
    reset(); int v = sym_i32("v"), w = sym_i32("w"); bool thr = sym_flip("throw"), fut = sym_flip("future"), got = false; asym_window(1);
    { pool_t p = mk_tp(1); auto task = [s = state(0, v), thr]() mutable { ran_[0]++; arg[0] = s.v; if (thr) throw std::runtime_error("x"); return s.v; };
      if (fut) { auto f = ba::post_future(p, ba::move_bind([w](decltype(task) t, state x) { arg[1] = x.v; return t(); }, std::move(task), state(1, w))); try { int r = f.get(); CHECK(r == v && !thr, "wrong result"); got = true; } catch (std::runtime_error&) { CHECK(thr, "an exception came from nowhere"); } }
      else p.post(ba::move_bind([](decltype(task) t, state x) { arg[1] = x.v; t(); }, std::move(task), state(1, w))); }
    asym_window(0); CHECK(ran_[0] == 1, "the task did not run exactly once"); CHECK(arg[0] == v && arg[1] == w, "the task ran with another state"); CHECK(live[0] == 0 && live[1] == 0, "the state of a task leaked"); if (fut && !thr) CHECK(got, "no result"); asym_reach("ran"); asym_reach("end");
}
