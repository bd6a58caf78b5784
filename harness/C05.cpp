//@ hist_deque | any history on guarded_deque | 5 operations of push(rvalue)/push(const&)/try_pop/try_steal/pop, content symbolic
//@ hist_list | any history on threadsafe_list | as above
//@ hist_lf | any history on lockfree_queue with size counting, initial capacity 1 | as above
//@ hist_spsc | any history on lockfree_spsc_queue capacity 2 | as above, at most 2 waiting
//@ hist_stack | any history on lockfree_stack | as above
//@ hist_circ | any history on circular_queue with capacity 1 and 2 (growth) | 6 operations
//@ hist_cont | any history on any_queue_container of one queue | 5 operations
#include "common.h"
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
static int live[16];      // live copies of the payload of each pushed job
struct tok { int id = -1; tok() {} explicit tok(int i) : id(i) { ++live[id]; } tok(tok const& o) : id(o.id) { if (id >= 0) ++live[id]; } tok(tok&& o) : id(o.id) { o.id = -1; }
    tok& operator=(tok const& o) { if (this != &o) { drop(); id = o.id; if (id >= 0) ++live[id]; } return *this; } tok& operator=(tok&& o) { if (this != &o) { drop(); id = o.id; o.id = -1; } return *this; } void drop() { if (id >= 0) --live[id]; id = -1; } ~tok() { drop(); } };
struct job { tok t; int v = 0; job() {} job(int id, int x) : t(id), v(x) {} };
template<class Q> void history(Q& q, int n, bool lifo, bool steal, int cap, int sizes) {
    std::deque<std::pair<int, int>> m; int next = 0; size_t maxsz = 0;
    for (int i = 0; i < n; i++) {
        unsigned op = sym_choice("op", 5);
        if (op < 2) { if ((int)m.size() >= cap) asym_kill(); int x = sym_i32("v"); m.push_back({next, x}); if (m.size() > maxsz) maxsz = m.size();
            if (op == 0) { if (sym_flip("prio")) q.push(job(next, x), 1); else q.push(job(next, x)); } else if constexpr (!requires { q.enable_queue(1, true); typename Q::job_type; q.find_any_position(); }) { job j(next, x); q.push(j); CHECK(j.t.id == next && j.v == x, "queue: push(const&) changed its argument"); } else asym_kill(); ++next; }
        else {
            job j; bool ok; std::pair<int, int> want{-1, 0}; bool has = !m.empty(); if (has) want = lifo ? m.back() : m.front();
            if (op == 2) ok = q.try_pop(j); else if (op == 3) { if (!steal) { CHECK(!q.try_steal(j), "queue: stole from a queue without stealing"); continue; } ok = q.try_steal(j); } else { if (!has) asym_kill(); j = q.pop(); ok = true; }
            CHECK(ok == has, has ? "queue: reported empty with a job waiting" : "queue: gave a job out of nothing");
            if (has) { CHECK(j.t.id == want.first, lifo ? "stack: not the most recent job" : "queue: jobs out of order"); CHECK(j.v == want.second, "queue: job content changed"); CHECK(live[want.first] == 1, "queue: kept a copy of a popped job"); if (lifo) m.pop_back(); else m.pop_front(); }
        }
        if (sizes) { auto s = q.get_queue_size(); size_t t = 0; for (auto x : s) t += x; CHECK(t == m.size(), "queue: reported size is wrong"); }
    }
    int waiting = m.size();
    for (int i = 0; i < waiting; i++) { job j; CHECK(q.try_pop(j), "queue: lost a job"); auto w = lifo ? m.back() : m.front(); CHECK(j.t.id == w.first && j.v == w.second, "queue: wrong job when emptied"); if (lifo) m.pop_back(); else m.pop_front(); }
    job j; CHECK(!q.try_pop(j), "queue: a job came out twice"); for (int i = 0; i < next; i++) CHECK(live[i] == 0, "queue: kept a copy of a popped job");
    asym_reach("end");
}
extern "C" void hist_deque() { ba::guarded_deque<job, 1> q; history(q, 5 + TIER, false, true, 9, 1); }
extern "C" void hist_list() { ba::threadsafe_list<job> q; history(q, 5 + TIER, false, true, 9, 0); }
extern "C" void hist_lf() { ba::lockfree_queue<job, ba::lockfree_size_max_size> q(1); history(q, 5 + TIER, false, true, 9, 1); }
extern "C" void hist_spsc() { ba::lockfree_spsc_queue<job, ba::lockfree_size> q(2); history(q, 5 + TIER, false, false, 2, 1); }
extern "C" void hist_stack() { ba::lockfree_stack<job, ba::lockfree_size> q(1); history(q, 5 + TIER, true, true, 9, 1); }
extern "C" void hist_circ() { ba::circular_queue<job> q(1 + sym_choice("cap", 2)); history(q, 6, false, true, 9, 1); }
extern "C" void hist_cont() { ba::any_queue_container<job> q(ba::any_queue_container_config<ba::threadsafe_list<job>>(1)); history(q, 5, false, true, 9, 0); }
