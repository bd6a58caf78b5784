//@ deque preempt=2 t.preempt=3 races | guarded_deque under every interleaving: producers, popper, stealer | 2 producers, 2 consumers, 1 job each, preemption bound
//@ deque_pop preempt=3 t.preempt=4 races | guarded_deque: blocking pop wakes up | 2 blocking consumers, 2 pushes
//@ list preempt=2 t.preempt=3 races | threadsafe_list: 2 producers, popper, stealer | 1 job each
//@ list_pop preempt=3 t.preempt=4 races | threadsafe_list: blocking pop wakes up | 1 blocking consumer, 1 push
//@ circ preempt=2 t.preempt=3 races | circular_queue (capacity 1, growing): 2 producers, popper, stealer | 1 job each
//@ circ_pop preempt=3 t.preempt=3 races | circular_queue: blocking pop wakes up | 2 blocking consumers, 2 pushes
//@ lf preempt=2 t.preempt=3 | lockfree_queue: 2 producers, popper | 1 job each
//@ spsc preempt=3 t.preempt=4 | lockfree_spsc_queue: producer and consumer | 2 jobs
//@ stack preempt=2 t.preempt=3 | lockfree_stack: 2 producers, popper | 1 job each
#include "common.h"
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
struct job { int id = -1; int v = 0; };
static int got[8], val[8]; static void fill() { for (int& x : val) x = sym_i32("content"); } static void take(job const& j) { CHECK(j.id >= 0 && j.id < 8 && j.v == val[j.id], "queue: job content lost"); got[j.id]++; }
// each: 2 producers, one try_pop consumer, one thief
template<class Q> void mixed(Q& q, bool thief, int jobs) {
    std::atomic<int> n{0}; job c1, s1; bool bc = false, bs = false;
    fill(); asym_window(1);
    boost::thread p1([&] { for (int i = 0; i < jobs; i++) q.push(job{i, val[i]}); });
    boost::thread p2([&] { q.push(job{4, val[4]}); });
    boost::thread c([&] { bc = q.try_pop(c1); });
    if (thief) { boost::thread s([&] { bs = q.try_steal(s1); }); s.join(); }
    p1.join(); p2.join(); c.join();
    asym_window(0);
    if (bc) take(c1); if (bs) take(s1); int rest = jobs + 1 - bc - bs, last = -1; if (bc && c1.id < 4) last = c1.id; if (bs && s1.id < 4 && s1.id > last) last = s1.id;
    for (int i = 0; i < rest; i++) { job j; CHECK(q.try_pop(j), "queue: lost a job"); take(j); if (j.id < 4 && std::is_same<Q, ba::lockfree_stack<job>>::value == false) { CHECK(j.id > last, "queue: jobs of one producer out of order"); last = j.id; } }
    job j; CHECK(!q.try_pop(j), "queue: a job came out twice"); for (int i = 0; i < jobs; i++) CHECK(got[i] == 1, "queue: a job was not delivered exactly once"); CHECK(got[4] == 1, "queue: a job was not delivered exactly once");
    asym_reach("end"); if (bc) asym_reach("popped");
}
// blocking pops: every consumer gets a job
template<class Q> void blocking(Q& q, int n) {
    fill(); asym_window(1); job r[2];
    boost::thread c1([&] { r[0] = q.pop(); }); 
    if (n == 2) { boost::thread c2([&] { r[1] = q.pop(); }); q.push(job{0, val[0]}); q.push(job{1, val[1]}); c2.join(); } else q.push(job{0, val[0]});
    c1.join(); asym_window(0); for (int i = 0; i < n; i++) take(r[i]); for (int i = 0; i < n; i++) CHECK(got[i] == 1, "queue: a job was not delivered exactly once"); asym_reach("end");
}
extern "C" void deque() { ba::guarded_deque<job, 1> q; mixed(q, true, 1); }
extern "C" void deque_pop() { ba::guarded_deque<job, 1> q; blocking(q, 2); }
extern "C" void list() { ba::threadsafe_list<job> q; mixed(q, true, 1); }
extern "C" void list_pop() { ba::threadsafe_list<job> q; blocking(q, 1); }
extern "C" void circ() { ba::circular_queue<job> q(1); mixed(q, true, 1); }
extern "C" void circ_pop() { ba::circular_queue<job> q(1); blocking(q, 2); }
extern "C" void lf() { ba::lockfree_queue<job> q(4); mixed(q, false, 1); }
extern "C" void stack() { ba::lockfree_stack<job> q(4); mixed(q, false, 1); }
extern "C" void spsc() { ba::lockfree_spsc_queue<job> q(4); job c[3]; int n = 0; fill(); asym_window(1); boost::thread p([&] { q.push(job{0, val[0]}); q.push(job{1, val[1]}); }); boost::thread t([&] { for (int i = 0; i < 2; i++) if (q.try_pop(c[n])) ++n; }); p.join(); t.join(); asym_window(0);
    for (int i = 0; i < n; i++) { take(c[i]); CHECK(c[i].id == i, "spsc queue: order"); } for (int i = n; i < 2; i++) { job j; CHECK(q.try_pop(j), "spsc queue: lost a job"); take(j); CHECK(j.id == i, "spsc queue: order"); } job j; CHECK(!q.try_pop(j), "spsc queue: a job came out twice"); asym_reach("end"); }
