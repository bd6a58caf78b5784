//@ history reach=end,disabled,any | any history of push (priority symbolic), push without priority, try_pop, try_steal, pop, enable, disable on a container of three queues; the priority-0 policy returns an arbitrary value | 3 operations (thorough 4), every size_t priority, every size_t answer of the policy
//@ mixed reach=end | the same on a container built from several configurations (2 x guarded_deque, threadsafe_list, lockfree_queue) | 3 operations (thorough 4), every size_t priority
//@ policies | default policies (random, sequential) keep a priority-0 job findable; every other priority goes to its queue | 6 pushes, every size_t priority
//@ runs reach=end | a single-threaded scheduler over three queues executes waiting tasks by priority, first-in first-out within one | 4 tasks, every priority 1..2^63, posted while the worker is busy
//@ enable reach=end | a queue disabled through the scheduler keeps its tasks until it is enabled again | 3 tasks, priorities 1..3
//@ sizes | queue sizes reported by container, scheduler proxy and queue_converter equal the waiting tasks per queue | 4 pushes and 2 pops, priorities 1..3
#include "pools.h"
#include <boost/asynchronous/queue/queue_converter.hpp>
struct job { int id = -1; int v = 0; job() {} job(int i, int x) : id(i), v(x) {} job(job const&) = default; job(job&& o) : id(o.id), v(o.v) { o.id = -1; } job& operator=(job const&) = default; job& operator=(job&& o) { if (&o != this) { id = o.id; v = o.v; o.id = -1; } return *this; } };
static size_t picked; struct anypos { size_t find_any_position() const { picked = asym_make("any", 64); asym_reach("any"); return picked; } };
typedef std::pair<int, int> iv;
static size_t sym_prio() { return asym_make("prio", 64); }
template<class Q> void history_(Q& q, int nq, int n) {
    std::vector<std::deque<iv>> m(nq); std::vector<bool> on(nq, true); int next = 0;
    auto first = [&]() -> int { for (int i = 0; i < nq; i++) if (on[i] && !m[i].empty()) return i; return -1; };
    for (int k = 0; k < n; k++) switch (sym_choice("op", 5)) {
        case 0: { size_t p = sym_prio(); int x = sym_i32("v"); picked = ~0ul; q.push(job(next, x), p); size_t w = p == ~0ul ? nq - 1 : p == 0 ? picked % nq : (p - 1 >= (size_t)nq ? nq - 1 : p - 1); m[asym_conc(w)].push_back({next++, x}); break; }
        case 1: { int x = sym_i32("v"); q.push(job(next, x)); m[asym_conc(picked % nq)].push_back({next++, x}); break; }
        case 2: case 3: { unsigned how = sym_choice("how", 3); int i = first(); job j; bool ok; if (how == 2) { if (i < 0) asym_kill(); j = q.pop(); ok = true; } else ok = how ? q.try_steal(j) : q.try_pop(j);
            CHECK(ok == (i >= 0), i >= 0 ? "a waiting job was not found" : "a job came from a disabled or empty queue"); if (i >= 0) { CHECK(j.id == m[i].front().first, "not the first job of the most urgent enabled queue"); CHECK(j.v == m[i].front().second, "job content changed"); m[i].pop_front(); } break; }
        case 4: { unsigned i = sym_choice("q", nq); bool e = sym_flip("on"); q.enable_queue(i + 1, e); on[i] = e; if (!e) asym_reach("disabled"); break; }
    }
    auto s = q.get_queue_size(); CHECK((int)s.size() == nq, "wrong number of queue sizes"); for (int i = 0; i < nq; i++) CHECK(s[i] == m[i].size(), "reported queue size is wrong");
    for (int i = 0; i < nq; i++) q.enable_queue(i + 1, true);
    for (int i = 0; i < nq; i++) { for (auto& w : m[i]) { job j; CHECK(q.try_pop(j) && j.id == w.first, "a job was lost or moved to another queue"); } } job j; CHECK(!q.try_pop(j), "a job came out twice"); asym_reach("end");
}
extern "C" void history() { ba::any_queue_container<job, ba::default_find_position<anypos>> q(ba::any_queue_container_config<ba::guarded_deque<job, 1>>(3)); history_(q, 3, 3 + TIER); }
extern "C" void mixed() { ba::any_queue_container<job, ba::default_find_position<anypos>> q(ba::any_queue_container_config<ba::guarded_deque<job, 1>>(2), ba::any_queue_container_config<ba::guarded_deque<job, 2>>(1), ba::any_queue_container_config<ba::lockfree_queue<job, ba::lockfree_size>>(1, 4)); history_(q, 4, 3 + TIER); }
template<class P> static void pol() {
    ba::any_queue_container<job, ba::default_find_position<P>> q(ba::any_queue_container_config<ba::guarded_deque<job, 1>>(3)); int want[6];
    for (int i = 0; i < 6; i++) { size_t p = i < 4 ? 0 : sym_prio(); auto b = q.get_queue_size(); q.push(job(i, i), p); auto a = q.get_queue_size(); int w = -1; for (int k = 0; k < 3; k++) { if (a[k] == b[k] + 1) w = w < 0 ? k : 9; else CHECK(a[k] == b[k], "a push changed another queue"); } CHECK(w >= 0 && w < 3, "a push did not reach exactly one queue"); want[i] = w; if (i >= 4 && p != 0) CHECK((size_t)w == (p - 1 < 3 ? p - 1 : 2), "wrong queue for the priority"); }
    bool seen[6] = {}; int last = -1; for (int k = 0; k < 6; k++) { job j; CHECK(q.try_pop(j), "a job was lost"); CHECK(!seen[j.id], "a job came out twice"); seen[j.id] = true; CHECK(want[j.id] >= last, "less urgent job first"); last = want[j.id]; } asym_reach("end");
}
extern "C" void policies() { if (sym_flip("seq")) pol<ba::sequential_push_policy>(); else pol<ba::default_random_push_policy<>>(); }
typedef ba::any_queue_container<> qc; typedef ba::any_queue_container_config<ba::guarded_deque<>> qcfg;
static pool_t mk_prio(int n) { return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<qc, nosave>>(qcfg(n)); }
static std::vector<int> order;
extern "C" void runs() {
    order.clear(); size_t pr[4]; int q[4]; for (int i = 0; i < 4; i++) { pr[i] = sym_prio(); asym_assume((pr[i] >= 1) & (pr[i] <= (1ul << 63))); q[i] = pr[i] > 3 ? 2 : (int)asym_conc(pr[i]) - 1; }
    { pool_t p = mk_prio(3); auto f = ba::post_future(p, [&pr] { auto s = ba::get_thread_scheduler<>().lock(); for (int i = 0; i < 4; i++) s.post([i] { order.push_back(i); }, pr[i]); auto sz = s.get_queue_size(); size_t t = 0; for (auto x : sz) t += x; CHECK(t == 4, "queued tasks are not reported"); }, "", 1); f.get(); }
    std::vector<int> w; for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) if (q[i] == k) w.push_back(i); CHECK(order.size() == 4, "a task was lost or run twice"); for (int i = 0; i < 4; i++) CHECK(order[i] == w[i], "tasks not executed by priority"); asym_reach("end");
}
extern "C" void enable() {
    order.clear(); int q[3]; for (int& x : q) x = 1 + sym_choice("prio", 3); int d = 1 + sym_choice("off", 2); size_t before = 0; int expect = 0; for (int x : q) expect += x != d;
    { pool_t p = mk_prio(3); p.get_weak_scheduler().lock().enable_queue(d, false); for (int i = 0; i < 3; i++) p.post([i] { order.push_back(i); }, q[i]); std::promise<void> pr; auto fu = pr.get_future(); p.post([&] { pr.set_value(); }, 100); fu.get(); before = order.size(); for (int i : order) CHECK(q[i] != d, "a disabled queue was served"); CHECK((int)before == expect, "an enabled queue was not served"); CHECK(p.get_queue_size()[d - 1] == 3u - expect, "the disabled queue lost its tasks"); p.get_weak_scheduler().lock().enable_queue(d, true); }
    CHECK(order.size() == 3, "a task of a disabled queue was lost"); asym_reach("end");
}
extern "C" void sizes() {
    auto q = std::make_shared<ba::any_queue_container<job>>(ba::any_queue_container_config<ba::guarded_deque<job, 1>>(3)); int n[3] = {}; for (int i = 0; i < 4; i++) { unsigned k = sym_choice("prio", 3); q->push(job(i, i), k + 1); n[k]++; }
    struct other { int id = -1; other() {} other(job const& j) : id(j.id) {} other& operator=(job const& j) { id = j.id; return *this; } };
    ba::queue_converter<other, job> cv((ba::any_queue_ptr<job>(q)));
    auto see = [&] { auto a = q->get_queue_size(), b = cv.get_queue_size(); CHECK(a.size() == 3 && b.size() == 3, "wrong number of queue sizes"); for (int k = 0; k < 3; k++) { CHECK(a[k] == (size_t)n[k], "container: wrong queue size"); CHECK(b[k] == (size_t)n[k], "queue_converter: wrong queue size"); } };
    see(); for (int i = 0; i < 2; i++) { int k = 0; while (!n[k]) k++; n[k]--; if (sym_flip("steal")) { other o; CHECK(cv.try_steal(o) && o.id >= 0, "queue_converter: job not stolen"); } else { job j; CHECK(q->try_pop(j), "job not found"); } see(); } other o; CHECK(!cv.try_pop(o), "queue_converter: only stealing is possible"); asym_reach("end");
}
