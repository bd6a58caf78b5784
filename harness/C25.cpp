//@ totals time=300 reach=end,fails | post_future tasks in every kind of pool with loggable jobs: name, times, failed flag, executing thread | 9 kinds of pool, 0..2 tasks, every failing subset, clock readings symbolic
//@ same time=300 reach=end | equal names: one record each, in the order they ran | 1 worker, 3 tasks named from {"a","b"}
//@ kinds time=300 reach=end,fails | every way to post: post_future of a value / nothing / continuation, post of a named functor | 2 tasks, throwing or not
//@ inter time=300 reach=end,interrupted,fails | interruptible tasks: interrupted before they start, while running, too late or never | 7 kinds of pool, value / void / plain post, throwing or not
//@ current time=300 reach=end,fails | a running task is current and no longer so when the next one runs | 8 kinds of pool, outcomes value / throw / interrupted
//@ clear time=200 reach=end | clear_diagnostics forgets what finished before and nothing later | 7 kinds of pool
//@ shutdown time=300 reach=end | a registered functor receives every task at shutdown | 4 kinds of pool, 0..2 tasks
//@ servant time=300 reach=end,fails | servants: members, post_callback and its callback | single thread + 1 worker
//@ cont time=300 reach=end,fails | continuation subtasks are recorded in the pool under their names | 2 subtasks and the top level task
//@ conc preempt=1 t.preempt=2 races time=600 reach=end | two workers recording while another thread reads and clears | 2 workers, 2 tasks
//@ summary time=300 t.time=800 reach=end | summary_diagnostics: counts, totals, extrema, averages and most recent values | 2 batches of 0..2 records (quick: 2 records in all) with symbolic times (8 bits) and flags
//@ iotemp idle=400 time=300 reach=end,later | io pool growing and shrinking: running tasks are current, finished ones recorded | minimum 1, maximum 3, 6 tasks, any order of ends
//@ comp time=300 reach=end | composite: index 0 gives all sub-pools' records, k those of sub-pool k | 2 sub-pools, equal or different names
#include "pools.h"
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
typedef ba::any_loggable J; typedef ba::any_shared_scheduler_proxy<J> jpool; typedef ba::guarded_deque<J> gj;
typedef std::chrono::high_resolution_clock hc; typedef hc::time_point tpnt;
struct myerr : std::exception { int i; myerr(int i_) : i(i_) {} };
static const char* kinds_[] = {"single", "tp", "mq", "mt", "io", "st", "smq", "comp st", "comp tp"};
static jpool mk(int k, int n = 1) {
    switch (k) { case 0: return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<gj, nosave>>(); case 1: return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<gj, nosave>>(n); case 2: return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<gj, seqpos, nosave>>(n);
    case 3: return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<gj, nosave>>(n, 2); case 4: return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<gj, nosave>>(n, n); case 5: return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<gj, nosave, true>>(n);
    case 6: return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<gj, seqpos, nosave, true>>(n);
    case 7: { jpool a = ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<gj, nosave>>(n), b = ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<gj, seqpos, nosave>>(n); return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<J>>(a, b); }
    default: { jpool a = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<gj, nosave>>(n), b = ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<gj, seqpos, nosave>>(n); return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<J>>(a, b); } }
}
typedef ba::scheduler_diagnostics::total_type tot; typedef ba::diagnostic_item item;
static size_t named(tot const& t) { size_t n = 0; for (auto& p : t) if (!p.first.empty()) n += p.second.size(); return n; }
// waits until n named tasks are recorded; a missing one is reported as a hang
template<class P> static tot recorded(P& p, size_t n) { for (;;) { tot t = p.get_diagnostics().totals(); size_t k = named(t); CHECK(k <= n, "a task is recorded more than once"); if (k == n) return t; boost::this_thread::sleep_for(boost::chrono::milliseconds(20)); } }
struct rec { tpnt posted, in, out; boost::thread::id tid; std::atomic<int> runs{0}; }; static rec R[4];
static void body(int i) { R[i].in = hc::now(); R[i].tid = boost::this_thread::get_id(); ++R[i].runs; R[i].out = hc::now(); }
template<class I> static void check_item(I const& it, int i, bool failed, bool inter = false) {
    CHECK(it.get_posted_time() >= R[i].posted, "posted time is before the call"); CHECK(it.get_started_time() >= it.get_posted_time(), "started before posted"); CHECK(it.get_finished_time() >= it.get_started_time(), "finished before started");
    if (R[i].runs) { CHECK(R[i].in >= it.get_started_time(), "the task ran before its start time"); CHECK(it.get_finished_time() >= R[i].out, "finished time is before the end of the task"); CHECK(it.get_executing_thread_id() == R[i].tid, "another thread is recorded"); }
    CHECK(it.is_failed() == failed, "wrong failed flag"); CHECK(it.is_interrupted() == inter, "wrong interrupted flag"); if (failed) asym_reach("fails"); if (inter) asym_reach("interrupted"); }
static item const& only(tot const& t, const char* name) { auto it = t.find(name); CHECK(it != t.end() && it->second.size() == 1, "a task is not recorded once under its name"); return it->second.front(); }
static const char* nm[] = {"t0", "t1", "t2", "t3"};
static bool T[4];
extern "C" void totals() { int k = sym_choice("kind", 9), n = sym_choice("n", 3); for (int i = 0; i < n; i++) T[i] = sym_choice("throws", 2); asym_symclock = 1; { jpool p = mk(k); std::future<int> f[2];
    for (int i = 0; i < n; i++) { R[i].posted = hc::now(); f[i] = ba::post_future(p, [i] { body(i); if (T[i]) throw myerr(i); return i; }, nm[i], 1); }
    for (int i = 0; i < n; i++) { bool th = false; try { CHECK(f[i].get() == i, "logging changed the result"); } catch (myerr& m) { th = m.i == i; } CHECK(th == T[i], "logging changed the outcome"); }
    tot t = recorded(p, n); CHECK(t.size() == (size_t)n, "something else is recorded"); auto ids = p.thread_ids(); for (int i = 0; i < n; i++) { auto& it = only(t, nm[i]); check_item(it, i, T[i]); bool in = false; for (auto& d : ids) in |= d == it.get_executing_thread_id(); CHECK(in, "the recorded thread is not the pool's"); } auto d_ = p.get_diagnostics(); for (auto& c : d_.current()) CHECK(c.first.empty(), "a finished task is still current"); } asym_reach("end"); }
extern "C" void same() { int nn[3]; int na = 0; for (int i = 0; i < 3; i++) { nn[i] = sym_choice("name", 2); na += nn[i] == 0; T[i] = sym_choice("throws", 2); } asym_symclock = 1; { jpool p = mk(1); std::future<void> f[3];
    for (int i = 0; i < 3; i++) { R[i].posted = hc::now(); f[i] = ba::post_future(p, [i] { body(i); if (T[i]) throw myerr(i); }, nn[i] ? "b" : "a", 0); } for (auto& x : f) x.wait(); tot t = recorded(p, 3);
    std::vector<item> v[2]; for (auto& x : t["a"]) v[0].push_back(x); for (auto& x : t["b"]) v[1].push_back(x); CHECK((int)v[0].size() == na && v[1].size() == 3u - na, "records under another name"); size_t at[2] = {0, 0}; for (int i = 0; i < 3; i++) check_item(v[nn[i]][at[nn[i]]++], i, T[i]); } asym_reach("end"); }
struct sub_ : ba::continuation_task<int> { int i; sub_(int i_) : ba::continuation_task<int>(i_ == 1 ? "t1" : "t2"), i(i_) {} void operator()() { auto r = this->this_task_result(); body(i); if (T[i]) r.set_exception(std::make_exception_ptr(myerr(i))); else r.set_value(i); } };
struct named_f : ba::job_traits<J>::diagnostic_type { int i; named_f(int i_) : i(i_) {} void operator()() { body(i); if (T[i]) throw myerr(i); } };
extern "C" void kinds() { int how = sym_choice("how", 6), k = sym_choice("kind", 8); T[0] = sym_choice("throws", 2); T[3] = false; asym_symclock = 1; { jpool p = mk(k); R[0].posted = hc::now();
    switch (how) { case 0: { auto f = ba::post_future(p, [] { body(0); if (T[0]) throw myerr(0); return 1; }, nm[0], 0); f.wait(); break; } case 1: { auto f = ba::post_future(p, [] { body(0); if (T[0]) throw myerr(0); }, nm[0], 0); f.wait(); break; }
    case 2: { auto f = ba::post_future(p, [] { body(0); if (T[0]) throw myerr(0); return ba::top_level_callback_continuation_job<int, J>(ba::make_lambda_continuation_wrapper([] { return 1; }, "")); }, nm[0], 0); f.wait(); break; }
    case 3: { auto f = ba::post_future(p, [] { body(0); if (T[0]) throw myerr(0); return ba::top_level_callback_continuation_job<void, J>(ba::make_lambda_continuation_wrapper([] {}, "")); }, nm[0], 0); f.wait(); break; }
    case 4: { ba::job_traits<J>::wrapper_type w(ba::any_callable([] { body(0); if (T[0]) throw myerr(0); })); w.set_name(nm[0]); p.post(std::move(w), 0); break; }
    default: { named_f f(0); f.set_name(nm[0]); p.post(std::move(f), 0); } }
    recorded(p, 1); R[3].posted = hc::now(); ba::post_future(p, [] { body(3); }, nm[3], 0).wait(); tot t = recorded(p, 2); check_item(only(t, nm[0]), 0, T[0]); check_item(only(t, nm[3]), 3, false); } asym_reach("end"); }
extern "C" void inter() { int k = sym_choice("kind", 7), how = sym_choice("how", 3), when = sym_choice("when", 4); T[0] = sym_choice("throws", 2); asym_symclock = 1; static std::atomic<int> gate{0}, in{0}; { jpool p = mk(k); auto g = ba::post_future(p, [] { while (!gate) boost::this_thread::yield(); }, "", 1);
    auto task = [when] { body(0); in = 1; if (when == 1) { while (gate < 2) boost::this_thread::yield(); boost::this_thread::interruption_point(); } if (T[0]) throw myerr(0); }; ba::any_interruptible i; std::future<int> f; std::future<void> fv; R[0].posted = hc::now();
    switch (how) { case 0: std::tie(f, i) = ba::interruptible_post_future(p, [task] { task(); return 1; }, nm[0], 1); break; case 1: std::tie(fv, i) = ba::interruptible_post_future(p, task, nm[0], 1); break; default: { ba::job_traits<J>::wrapper_type w((ba::any_callable(task))); w.set_name(nm[0]); i = p.interruptible_post(std::move(w), 1); } }
    if (when == 0) { i.interrupt(); gate = 1; } else { gate = 1; while (!in) boost::this_thread::yield(); if (when == 1) { i.interrupt(); gate = 2; } } tot t = recorded(p, 1); if (when == 2) i.interrupt();
    CHECK(R[0].runs == (when ? 1 : 0), "runs"); bool ir = when < 2; check_item(only(t, nm[0]), 0, !ir && T[0], ir); R[3].posted = hc::now(); ba::post_future(p, [] { body(3); }, nm[3], 1).wait(); t = recorded(p, 2); check_item(only(t, nm[3]), 3, false); } asym_reach("end"); }
static int ncur(ba::scheduler_diagnostics const& d, const char* n) { int k = 0; for (auto& c : d.current()) k += c.first == n; return k; }
extern "C" void current() { int k = sym_choice("kind", 8), what = sym_choice("what", 5); T[0] = what == 1 || what == 3; { jpool p = mk(k); auto q = [w = p.get_weak_scheduler()] { return w.lock().get_diagnostics(); }; static std::atomic<int> go{0}, in{0}; R[0].posted = hc::now(); jpool* pp = &p; (void)q;
    auto task = [what, pp] { body(0); { auto d = pp->get_diagnostics(); CHECK(ncur(d, nm[0]) == 1, "a running task is not current"); CHECK(named(d.totals()) == 0, "a running task is recorded already"); for (auto& c : d.current()) if (c.first == nm[0]) CHECK(c.second.get_executing_thread_id() == boost::this_thread::get_id(), "current: another thread"); } in = 1; if (what == 2) { while (!go) boost::this_thread::yield(); boost::this_thread::interruption_point(); } if (T[0]) throw myerr(0); };
    std::future<void> f; ba::any_interruptible i; if (what == 2) { ba::job_traits<J>::wrapper_type w((ba::any_callable(task))); w.set_name(nm[0]); i = p.interruptible_post(std::move(w), 1); while (!in) boost::this_thread::yield(); i.interrupt(); go = 1; } else if (what > 2) { ba::job_traits<J>::wrapper_type w((ba::any_callable(task))); w.set_name(nm[0]); p.post(std::move(w), 1); } else { f = ba::post_future(p, task, nm[0], 1); f.wait(); }
    recorded(p, 1); ba::post_future(p, [pp] { auto d = pp->get_diagnostics(); CHECK(ncur(d, nm[0]) == 0, "a finished task is still current"); CHECK(ncur(d, nm[1]) == 1, "a running task is not current"); }, nm[1], 1).get(); recorded(p, 2); if (T[0]) asym_reach("fails"); } asym_reach("end"); }
extern "C" void clear() { int k = sym_choice("kind", 9); { jpool p = mk(k); ba::post_future(p, [] {}, nm[0], 1).get(); recorded(p, 1); p.clear_diagnostics(); CHECK(named(p.get_diagnostics().totals()) == 0, "clear_diagnostics left records"); ba::post_future(p, [] {}, nm[1], 1).get(); tot t = recorded(p, 1); only(t, nm[1]); } asym_reach("end"); }
static ba::scheduler_diagnostics got; static std::atomic<int> ngot{0};
extern "C" void shutdown() { int k = sym_choice("kind", 8), n = sym_choice("n", 3); if (k == 7) asym_kill(); for (int i = 0; i < n; i++) T[i] = sym_choice("throws", 2); { jpool p = mk(k); p.get_weak_scheduler().lock().register_diagnostics_functor([](ba::scheduler_diagnostics d) { got = std::move(d); ++ngot; }); std::vector<std::future<void>> f; for (int i = 0; i < n; i++) { R[i].posted = hc::now(); f.push_back(ba::post_future(p, [i] { body(i); if (T[i]) throw myerr(i); }, nm[i], 1)); } for (auto& x : f) x.wait(); if (n) recorded(p, n); }
    CHECK(ngot == 1, "the registered functor was not called once"); CHECK(named(got.totals()) == (size_t)n, "the functor did not receive every task"); for (int i = 0; i < n; i++) check_item(only(got.totals(), nm[i]), i, T[i]); asym_reach("end"); }
struct sv : ba::trackable_servant<J, J> { typedef int simple_ctor; sv(ba::any_weak_scheduler<J> s, jpool w) : ba::trackable_servant<J, J>(s, w) {}
    int member() { body(0); if (T[0]) throw myerr(0); return 1; } void pmember() { body(1); if (T[1]) throw myerr(1); }
    std::future<void> cb() { auto pr = std::make_shared<std::promise<void>>(); auto f = pr->get_future(); R[2].posted = hc::now(); post_callback([] { body(2); if (T[2]) throw myerr(2); return 2; }, [pr](ba::expected<int> r) { body(3); CHECK(r.has_exception() == T[2], "outcome"); pr->set_value(); if (T[3]) throw myerr(3); }, nm[2], 0, 0); return f; } };
struct svp : ba::servant_proxy<svp, sv, J> { template<class S, class W> svp(S s, W w) : ba::servant_proxy<svp, sv, J>(s, w) {} BOOST_ASYNC_FUTURE_MEMBER_LOG(member, "t0") BOOST_ASYNC_POST_MEMBER_LOG(pmember, "t1") BOOST_ASYNC_FUTURE_MEMBER_LOG(cb, "cb") };
extern "C" void servant() { int what = sym_choice("what", 3); T[0] = T[1] = T[2] = T[3] = sym_choice("throws", 2); T[3] = T[3] && sym_choice("cb throws", 2); asym_symclock = 1; { jpool s = mk(0), w = mk(1); { svp p(s, w);
    size_t base = named(s.get_diagnostics().totals()); if (what == 0) { R[0].posted = hc::now(); auto f = p.member(); f.wait(); tot t = recorded(s, base + 1); check_item(only(t, nm[0]), 0, T[0]); } else if (what == 1) { R[1].posted = hc::now(); p.pmember(); tot t = recorded(s, base + 1); check_item(only(t, nm[1]), 1, T[1]); }
    else { p.cb().get().get(); tot t = recorded(w, 1); check_item(only(t, nm[2]), 2, T[2]); R[3].posted = R[2].posted; t = recorded(s, base + 2); check_item(only(t, nm[2]), 3, T[3]); } } } asym_reach("end"); }
extern "C" void cont() { for (int i = 1; i < 3; i++) T[i] = sym_choice("throws", 2); bool fu = sym_choice("future based", 2); asym_symclock = 1; { jpool p = mk(1); struct root : ba::continuation_task<int> { bool fu; root(bool f) : ba::continuation_task<int>("root"), fu(f) {} void operator()() { auto r = this->this_task_result(); auto done = [r](auto) mutable { r.set_value(7); }; if (fu) ba::create_continuation_job<J>(done, sub_(1), sub_(2)); else ba::create_callback_continuation_job<J>(done, sub_(1), sub_(2)); } };
    R[1].posted = R[2].posted = hc::now(); CHECK(ba::post_future(p, [fu] { return ba::top_level_callback_continuation_job<int, J>(root(fu)); }, "t0", 0).get() == 7, "logging changed the result"); tot t = recorded(p, fu ? 3 : 2); check_item(only(t, nm[1]), 1, only(t, nm[1]).is_failed()); if (fu) check_item(only(t, nm[2]), 2, only(t, nm[2]).is_failed()); only(t, "t0"); if (T[1]) asym_reach("fails"); } asym_reach("end"); }
extern "C" void conc() { bool clr = sym_choice("clear", 2); { jpool p = mk(1, 2); asym_window(1); auto a = ba::post_future(p, [] { body(0); }, "t0", 0), b = ba::post_future(p, [] { body(1); }, "t1", 0); auto d = p.get_diagnostics(); size_t k0 = named(d.totals()); CHECK(k0 <= 2, "recorded more than once"); size_t seen = 0; if (clr) p.clear_diagnostics(); a.get(); b.get(); asym_window(0); if (!clr) { tot t = recorded(p, 2); check_item(only(t, nm[0]), 0, false); check_item(only(t, nm[1]), 1, false); } else { tot t = p.get_diagnostics().totals(); CHECK(named(t) + seen <= 2, "recorded more than once"); } } asym_reach("end"); }
// summary: the reference is computed from the records directly
static tpnt at(long v) { return tpnt(tpnt::duration(v)); }
extern "C" void summary() {
    struct r_ { long s, x, f; bool fa, in; }; std::vector<r_> b[2]; int nb[2]; for (int j = 0; j < 2; j++) { nb[j] = sym_choice("n", 3); for (int i = 0; i < nb[j]; i++) { r_ r; r.s = sym_int("posted", 0, 255); r.x = r.s + sym_int("wait", 0, 255); r.f = r.x + sym_int("run", 0, 255); r.fa = sym_choice("failed", 2); r.in = !r.fa && sym_choice("interrupted", 2); b[j].push_back(r); } } if (!TIER && nb[0] + nb[1] > 2) asym_kill();
    ba::summary_diagnostics sd; for (int j = 0; j < 2; j++) { ba::scheduler_diagnostics::total_type m; for (auto& r : b[j]) m["a"].push_back(item(at(r.s), at(r.x), at(r.f), r.in, r.fa, boost::thread::id())); sd.merge(ba::scheduler_diagnostics(m, {})); }
    int n = nb[0] + nb[1]; if (n == 0) { CHECK(sd.items.empty(), "invented"); asym_reach("end"); return; } auto& it = sd.items["a"]; CHECK((int)it.count.total == n && (int)it.count.scheduling == n, "summary: wrong number of tasks");
    long cnt[3] = {}, tt[3] = {}, mx[3] = {}, mn[3] = {}, st = 0, smx = 0, smn = 0; bool first = true; for (auto& v : b) for (auto& r : v) { int c = r.fa ? 1 : r.in ? 2 : 0; long e = r.f - r.x, s = r.x - r.s; tt[c] += e; if (!cnt[c] || e > mx[c]) mx[c] = e; if (!cnt[c] || e < mn[c]) mn[c] = e; cnt[c]++; st += s; if (first || s > smx) smx = s; if (first || s < smn) smn = s; first = false; }
    auto& d = it.durations; CHECK(d.scheduling.total.count() == st, "summary: scheduling total"); CHECK(d.scheduling.max.count() == smx, "summary: scheduling max"); CHECK(d.scheduling.min.count() == smn, "summary: scheduling min");
    auto one = [&](auto& x, long c, int k) { CHECK(c == cnt[k], "summary: count"); if (!c) return; CHECK(x.total.count() == tt[k], "summary: total"); CHECK(x.max.count() == mx[k], "summary: max"); CHECK(x.min.count() == mn[k], "summary: min"); CHECK(x.recent.count() <= mx[k], "summary: the most recent value is above the maximum"); CHECK(x.recent.count() >= mn[k], "summary: the most recent value is below the minimum"); CHECK(x.average.count() == tt[k] / c, "summary: average"); };
    one(d.success, it.count.success, 0); one(d.failure, it.count.failure, 1); one(d.interruption, it.count.interruption, 2); CHECK(sd.has_fails == (cnt[1] > 0) && sd.has_interrupts == (cnt[2] > 0), "summary: flags");
    asym_reach("end"); }
extern "C" void comp() { bool eq = sym_choice("equal names", 2); { jpool a = mk(1), b = mk(2); jpool p = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<J>>(a, b); int na = sym_choice("in 1", 3), nb = sym_choice("in 2", 3); for (int i = 0; i < na; i++) ba::post_future(p, [] {}, "a", 1).get(); for (int i = 0; i < nb; i++) ba::post_future(p, [] {}, eq ? "a" : "b", 2).get();
    tot ta = recorded(a, na), tb = recorded(b, nb); tot t0 = p.get_diagnostics(0).totals(), t1 = p.get_diagnostics(1).totals(), t2 = p.get_diagnostics(2).totals(); CHECK((int)named(t1) == na && (int)named(t2) == nb, "diagnostics of another sub-pool"); CHECK((int)named(t0) == na + nb, "the composite's diagnostics miss tasks"); CHECK(t0["a"].size() == (size_t)(eq ? na + nb : na), "names"); auto c = p.get_diagnostics(0).current(); CHECK(c.size() == a.get_diagnostics().current().size() + b.get_diagnostics().current().size(), "the composite's current tasks"); } asym_reach("end"); }
static void nap_() { for (int i = 0; i < 12; i++) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); }
extern "C" void iotemp() { // threads come and go: every running task is current, every finished one recorded, whatever threads ended before
    static std::atomic<bool> go[6], in[6]; for (int i = 0; i < 6; i++) go[i] = in[i] = false; static const char* n5[] = {"t0", "t1", "t2", "t3", "t4", "t5"}; bool fin[6] = {}; { jpool p = ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<gj, nosave>>(1, 3); std::vector<std::future<void>> f; f.resize(6);
        auto post = [&](int i) { f[i] = ba::post_future(p, [i] { in[i] = true; while (!go[i]) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); }, n5[i]); };
        auto see = [&] { auto d = p.get_diagnostics(); for (int i = 0; i < 6; i++) { CHECK(ncur(d, n5[i]) == (in[i] && !fin[i] ? 1 : 0), "current tasks: not exactly those which run"); } CHECK((int)named(d.totals()) == fin[0] + fin[1] + fin[2] + fin[3] + fin[4] + fin[5], "finished tasks are not recorded"); };
        post(0); nap_(); post(1); post(2); post(3); nap_(); see(); int r = 0; for (auto& x : in) r += x; CHECK(r >= 3, "the pool did not grow"); int a = sym_choice("ends", 4); if (!in[a]) asym_kill(); auto end = [&](int i) { go[i] = true; f[i].get(); fin[i] = true; nap_(); see(); }; end(a); int b = sym_choice("then", 4); if (b == a || !in[b]) asym_kill(); if (sym_flip("both")) end(b); post(4); post(5); nap_(); see(); asym_reach("later"); for (int i = 0; i < 6; i++) go[i] = true; for (int i = 0; i < 6; i++) if (!fin[i]) f[i].get(); } asym_reach("end"); }
