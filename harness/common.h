// Shared pieces of the harnesses: pools and a job queue with a symbolic pop order.
#pragma once
#include "asym.h"
#include <vector>
#include <deque>
#include <mutex>
#include <algorithm>
#include <numeric>
#include <atomic>
#include <stdexcept>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/scheduler_shared_proxy.hpp>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
namespace ba = boost::asynchronous;
// A queue whose try_pop may return any waiting job: a pool with one worker and this queue runs the
// chunks of an algorithm in every order that departs at most symq_budget times from FIFO.
inline int symq_budget = 0;
template<class JOB = ba::any_callable>
class symq : public ba::any_queue_concept<JOB>, public ba::queue_base<JOB> {
    std::deque<JOB> d; mutable std::mutex m;
public:
    template<class... A> symq(A...) {}
    std::vector<std::size_t> get_queue_size() const { std::lock_guard<std::mutex> l(m); return {d.size()}; }
    std::vector<std::size_t> get_max_queue_size() const { return {0}; }
    void reset_max_queue_size() {}
    void push(JOB&& j, std::size_t) { std::lock_guard<std::mutex> l(m); d.push_back(std::move(j)); }
    void push(JOB&& j) { std::lock_guard<std::mutex> l(m); d.push_back(std::move(j)); }
    void push(JOB const& j, std::size_t = 0) { std::lock_guard<std::mutex> l(m); d.push_back(j); }
    JOB pop() { JOB j; while (!try_pop(j)) boost::this_thread::yield(); return j; }
    bool try_pop(JOB& j) {
        std::lock_guard<std::mutex> l(m); if (d.empty()) return false;
        unsigned i = 0;
        if (symq_budget > 0 && d.size() > 1) { i = sym_choice("order", (unsigned)d.size()); if (i) --symq_budget; }
        j = std::move(d[i]); d.erase(d.begin() + i); return true;
    }
    bool try_steal(JOB&) { return false; }
};
typedef ba::any_shared_scheduler_proxy<> pool_t;
inline pool_t order_pool(int budget) { symq_budget = budget; return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<symq<>>>(1); }
inline pool_t fifo_pool(int n = 1) { return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<>>>(n); }
// runs f (which returns a continuation or a value) inside a pool task and gives the result
template<class F> auto in_pool(pool_t& p, F f) { auto fu = ba::post_future(p, std::move(f)); return fu.get(); }
template<class F> auto run_alg(int budget, F f) { auto p = order_pool(budget); return in_pool(p, std::move(f)); }
// a vector of n symbolic elements
inline std::vector<int> sym_vec(int n, const char* name = "v") { std::vector<int> v; v.reserve(n); for (int i = 0; i < n; i++) v.push_back(sym_i32(name)); return v; }
inline std::vector<int> sym_vec(int n, int lo, int hi, const char* name = "v") { std::vector<int> v; v.reserve(n); for (int i = 0; i < n; i++) v.push_back(sym_int(name, lo, hi)); return v; }
// length and cutoff: both enumerated
struct shape { int n; long cut; };
inline shape sym_shape(int maxn, int maxcut) { shape s; s.n = sym_choice("n", maxn + 1); s.cut = 1 + (long)sym_choice("cut", maxcut); return s; }
template<class V, class W> bool same(V const& a, W const& b) { if (a.size() != b.size()) return false; bool r = true; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) r &= (*i == *j); return r; }
// an asynchronous source of a value: a continuation (callback or future based) whose result is v (or an exception)
template<class R> struct source_task : ba::continuation_task<R> {
    R v; int mode; int depth;
    source_task(R v_, int mode_, int d) : ba::continuation_task<R>("source"), v(std::move(v_)), mode(mode_), depth(d) {}
    void operator()() {
        auto res = this->this_task_result();
        if (depth > 0) {
            ba::create_callback_continuation([res](std::tuple<ba::expected<R>> r) mutable {
                if (std::get<0>(r).has_exception()) res.set_exception(std::get<0>(r).get_exception_ptr()); else res.set_value(std::move(std::get<0>(r).get())); },
                source_task<R>(std::move(v), mode, depth - 1));
        } else if (mode == 1) res.set_exception(std::make_exception_ptr(std::runtime_error("source")));
        else res.set_value(std::move(v));
    }
};
template<class R> auto cb_source(R v, int mode = 0) { return ba::top_level_callback_continuation<R>(source_task<R>(std::move(v), mode, 1)); }
template<class R> auto fu_source(R v, int mode = 0) { return ba::top_level_continuation<R>(source_task<R>(std::move(v), mode, 0)); }
// an associative, non-commutative element: concatenation
struct seq { int n = 0; int a[12] = {}; seq() {} explicit seq(int x) { n = 1; a[0] = x; } };
inline seq operator+(seq const& l, seq const& r) { seq s = l; for (int i = 0; i < r.n; i++) s.a[s.n++] = r.a[i]; return s; }
inline std::vector<seq> seq_vec(int n) { std::vector<seq> v; for (int i = 0; i < n; i++) v.emplace_back(i); return v; }
inline bool is_iota(seq const& s, int n) { if (s.n != n) return false; for (int i = 0; i < n; i++) if (s.a[i] != i) return false; return true; }
// an element that knows its position; the harness counts functor calls per position
struct el { int id = -1; int v = 0; };
inline int calls[32];
inline std::vector<el> el_vec(int n) { std::vector<el> r(n); for (int i = 0; i < n; i++) { r[i].id = i; r[i].v = sym_i32("v"); } for (int& c : calls) c = 0; return r; }
// n elements between two guards
template<class T> struct guarded { std::vector<T> all; T g0, g1; int n; guarded(std::vector<T> const& mid, T a, T b) : g0(a), g1(b), n(mid.size()) { all.push_back(a); for (auto& x : mid) all.push_back(x); all.push_back(b); }
    auto begin() { return all.begin() + 1; } auto end() { return all.end() - 1; }
    bool intact() const { return (all.front() == g0) & (all.back() == g1) & (all.size() == (size_t)n + 2); } };
inline bool once(int n) { bool r = true; for (int i = 0; i < n; i++) r &= calls[i] == 1; for (int i = n; i < 32; i++) r &= calls[i] == 0; return r; }
