//@ t_fut timeouts time=300 reach=end,expired,all,late,notexpired | create_continuation_timeout over futures | 1..3 futures set by another thread in any order, with pauses, expiry noticed at any poll
//@ t_seq timeouts time=300 reach=end,expired,all,late,notexpired | create_continuation_timeout over a vector of futures | 1..3 futures, as above
//@ t_task timeouts time=300 reach=end,expired,all,late,notexpired | create_continuation_timeout over tasks whose results arrive later | 1..3 subtasks, as above
//@ t_job timeouts time=300 reach=end,expired,all,late,notexpired | the _job versions (futures, vector, tasks) | 2 subtasks, as above
//@ t_zero timeouts time=200 reach=end,all | a duration of 0 never expires | 1..2 futures, three ways
//@ t_int timeouts time=300 reach=end | two timed continuations created by one task's steps, one inside the callback of the other | 2+1 futures
//@ t_conc preempt=1 t.preempt=2 timeouts races time=600 reach=end,expired,all | expiry races with another thread setting the results | 2 futures, all interleavings up to the preemption bound
//@ t_two preempt=1 t.preempt=2 timeouts races time=600 reach=end,expired,all | subtasks run by a second worker while the time runs out | 2 workers, 2 subtasks
//@ cb_job time=300 reach=end,throws,value | callback based continuations with a timeout run once with all results, expired or not | 3 subtasks, arguments / tuple / vector, parallel_invoke_timeout
//@ any_late preempt=1 t.preempt=2 races time=300 reach=end,combined,value | any_of over 2 continuations finished by other threads | 2 threads, every failing subset
//@ any_n time=300 reach=end,combined,value | any_of over 2..4 continuations of int, void and string-like types | every failing subset, order of completion with 2 (thorough 4) deviations
//@ all_n time=300 reach=end,throws,value | all_of as arguments, tuple and vector, over 1..4 continuations | every failing subset, order with 2 (thorough 4) deviations
//@ all_late preempt=1 t.preempt=2 races time=300 reach=end,throws,value | all_of (arguments, vector) over 2 continuations finished by other threads | 2 threads, every failing subset
//@ combo time=300 reach=end,throws,value | any_of of all_ofs and all_of of any_ofs | 2x2 continuations, every failing subset
#include "pools.h"
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/any_of.hpp>
static int V[8]; static bool T[8]; static std::atomic<int> ran[8], setn[8]; static std::atomic<int> ncb{0};
struct myerr { int i; };
static void inputs(int n, int nt = 99) { for (int i = 0; i < n; i++) { V[i] = sym_i32("value"); T[i] = i < nt && sym_bool("throws"); } }
// time: a duration type of our own. Each time the library asks if it has passed, the answer is a choice; once passed it stays so
struct clk { int left; bool never; bool exp = false; };
static clk CK[2];
static std::atomic<int> polls{0};
struct sdur { int id = 0; bool zero = false; long count() const { ++polls; return zero ? 0 : 1; } };
static bool operator>=(std::chrono::nanoseconds const& el_, sdur const& d) { CHECK(el_.count() >= 0, "time ran backwards"); if (d.zero) return true; clk& c = CK[d.id]; if (c.exp) return true; if (c.left == 0) { if (!c.never) c.exp = true; } else { --c.left; c.exp = sym_choice("expired", 2); } return c.exp; }
static void clock_(int id = 0, int polls = 3) { CK[id].left = polls; CK[id].never = sym_choice("never expires", 2); }
static const int RES = 4711;
template<class F> struct root : ba::continuation_task<int> { F f; root(F f_) : ba::continuation_task<int>("root"), f(std::move(f_)) {} void operator()() { f(this->this_task_result()); } };
template<class F> root<F> mkroot(F f) { return root<F>(std::move(f)); }
static bool isr(std::future<int>& f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
// a slot: not ready only if time had run out; else the subtask's outcome
static int slot(int i, std::future<int>& f, bool expd) {
    if (!isr(f)) { CHECK(expd, "the callback ran before all results were there although the time was not over"); asym_reach("late"); return 0; }
    CHECK(setn[i] == 1, "a slot is ready before its subtask is"); bool th = false; try { int v = f.get(); CHECK(v == V[i], "a slot holds another value"); } catch (myerr& m) { CHECK(m.i == i, "another exception"); th = true; } CHECK(th == T[i], "a value instead of an exception or the reverse"); return 1;
}
template<class Tp, size_t... I> int slots(Tp& t, int base, bool e, std::index_sequence<I...>) { return (0 + ... + slot(base + (int)I, std::get<I>(t), e)); }
template<class... A> int all(std::tuple<A...>& t, int base, bool e) { return slots(t, base, e, std::index_sequence_for<A...>()); }
inline int all(std::vector<std::future<int>>& v, int base, bool e) { int k = 0; for (auto& x : v) k += slot(base++, x, e); return k; }
template<class R> auto tfin(R r, size_t n, int id = 0, int base = 0) { return [r, n, id, base](auto t) mutable { CHECK(++ncb == 1, "the callback ran twice"); if constexpr (requires { t.size(); }) CHECK(t.size() == n, "slots were lost"); bool e = CK[id].exp; int k = all(t, base, e); if (e) asym_reach("expired"); else asym_reach("notexpired"); if (k == (int)n) asym_reach("all"); r.set_value(RES); }; }
static std::promise<int> P[4]; static std::vector<std::future<int>> F;
static void mk(int n) { for (int i = 0; i < n; i++) F.push_back(P[i].get_future()); }
static void set_(int i) { ++setn[i]; if (T[i]) P[i].set_exception(std::make_exception_ptr(myerr{i})); else P[i].set_value(V[i]); }
// lets the worker ask once, or not
static void pause_() { if (sym_choice("pause", 2)) { int k = polls; while (polls == k && ncb == 0) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); } }
template<class S> static void feed(int n, S s) { std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(i); while (!o.empty()) { pause_(); int k = o.size() > 1 ? sym_choice("next", (unsigned)o.size()) : 0; int i = o[k]; o.erase(o.begin() + k); s(i); } }
template<class J = void, class Q, class FN> std::future<int> start(Q& p, FN f) { if constexpr (std::is_void_v<J>) return ba::post_future(p, [f] { return ba::top_level_callback_continuation<int>(mkroot(f)); }); else return ba::post_future(p, [f] { return ba::top_level_callback_continuation_job<int, J>(mkroot(f)); }, "root", 0); }
static void finish(std::future<int>& fu) { CHECK(fu.get() == RES, "the task's result is lost"); CHECK(ncb == 1, "the callback did not run exactly once"); }
template<class R> static void futs(R r, int n, sdur d) { switch (n) { case 1: ba::create_continuation_timeout(tfin(r, 1), d, std::move(F[0])); break; case 2: ba::create_continuation_timeout(tfin(r, 2), d, std::move(F[0]), std::move(F[1])); break; default: ba::create_continuation_timeout(tfin(r, 3), d, std::move(F[0]), std::move(F[1]), std::move(F[2])); } }
static pool_t qpool() { return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<>>>(1); }
template<class FN> static void timed(int n, FN f) { inputs(n, 1); clock_(); mk(n); { pool_t p = qpool(); auto fu = start(p, f); feed(n, set_); finish(fu); } CHECK(ncb == 1, "late results called the callback again"); asym_reach("end"); }
extern "C" void t_fut() { int n = 1 + sym_choice("n", 3); timed(n, [n](auto r) { futs(r, n, sdur()); }); }
extern "C" void t_seq() { int n = 1 + sym_choice("n", 3); timed(n, [n](auto r) { ba::create_continuation_timeout(tfin(r, n), sdur(), std::move(F)); }); }
// a subtask which returns before it has a result; someone else sets it
static ba::continuation_result<int>* LR[4]; static std::atomic<int> here{0};
struct lsub : ba::continuation_task<int> { int i; lsub(int i_) : ba::continuation_task<int>("lsub"), i(i_) {} void operator()() { ++ran[i]; LR[i] = new ba::continuation_result<int>(this->this_task_result()); ++here; } };
static void lset(int i) { ++setn[i]; if (T[i]) LR[i]->set_exception(std::make_exception_ptr(myerr{i})); else LR[i]->set_value(V[i]); delete LR[i]; }
extern "C" void t_task() { int n = 1 + sym_choice("n", 3); inputs(n, 1); clock_(); { pool_t p = qpool();
    auto fu = start(p, [n](auto r) { sdur d; switch (n) { case 1: ba::create_continuation_timeout(tfin(r, 1), d, lsub(0)); break; case 2: ba::create_continuation_timeout(tfin(r, 2), d, lsub(0), lsub(1)); break; default: ba::create_continuation_timeout(tfin(r, 3), d, lsub(0), lsub(1), lsub(2)); } });
    while (here < n) boost::this_thread::yield(); feed(n, lset); finish(fu); } CHECK(ncb == 1, "late results called the callback again"); for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "a subtask did not run exactly once"); asym_reach("end"); }
extern "C" void t_job() { typedef ba::any_loggable J; int how = sym_choice("how", 3); inputs(2, 1); clock_(); if (how < 2) mk(2); { auto p = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::guarded_deque<J>>>(1);
    auto fu = start<J>(p, [how](auto r) { sdur d; switch (how) { case 0: ba::create_continuation_job_timeout<J>(tfin(r, 2), d, std::move(F[0]), std::move(F[1])); break; case 1: ba::create_continuation_job_timeout<J>(tfin(r, 2), d, std::move(F)); break; default: ba::create_continuation_job_timeout<J>(tfin(r, 2), d, lsub(0), lsub(1)); } });
    if (how == 2) { while (here < 2) boost::this_thread::yield(); feed(2, lset); } else feed(2, set_); finish(fu); } CHECK(ncb == 1, "late results called the callback again"); asym_reach("end"); }
extern "C" void t_zero() { int n = 1 + sym_choice("n", 2), how = sym_choice("how", 3); inputs(n, 1); if (how < 2) mk(n); { pool_t p = qpool();
    auto fu = start(p, [n, how](auto r) { sdur d; d.zero = true; switch (how) { case 0: futs(r, n, d); break; case 1: ba::create_continuation_timeout(tfin(r, n), d, std::move(F)); break; default: if (n == 1) ba::create_continuation_timeout(tfin(r, 1), d, lsub(0)); else ba::create_continuation_timeout(tfin(r, 2), d, lsub(0), lsub(1)); } });
    if (how == 2) { while (here < n) boost::this_thread::yield(); feed(n, lset); } else feed(n, set_); finish(fu); } asym_reach("end"); }
extern "C" void t_int() { inputs(3, 0); clock_(0, 1); clock_(1, 1); mk(3); static std::atomic<int> nouter{0}; { pool_t p = qpool();
    auto fu = start(p, [](auto r) { sdur d; ba::create_continuation_timeout([r](std::tuple<std::future<int>, std::future<int>> t) mutable { CHECK(++nouter == 1, "the outer callback ran twice"); all(t, 0, CK[0].exp); sdur d2; d2.id = 1; ba::create_continuation_timeout(tfin(r, 1, 1, 2), d2, std::move(F[2])); }, d, std::move(F[0]), std::move(F[1])); });
    feed(3, set_); finish(fu); } CHECK(nouter == 1 && ncb == 1, "callbacks ran again"); asym_reach("end"); }
extern "C" void t_conc() { inputs(2, 1); clock_(0, 1); mk(2); bool seq_ = sym_choice("vector", 2); pool_t p = qpool(); { pool_t q = std::move(p); asym_window(1); auto fu = start(q, [seq_](auto r) { if (seq_) ba::create_continuation_timeout(tfin(r, 2), sdur(), std::move(F)); else futs(r, 2, sdur()); }); set_(1); set_(0); finish(fu); } asym_window(0); CHECK(ncb == 1, "again"); asym_reach("end"); }
struct wsub : ba::continuation_task<int> { int i; wsub(int i_) : ba::continuation_task<int>("wsub"), i(i_) {} void operator()() { auto r = this->this_task_result(); ++ran[i]; ++setn[i]; if (T[i]) r.set_exception(std::make_exception_ptr(myerr{i})); else r.set_value(V[i]); } };
extern "C" void t_two() { inputs(2, 1); clock_(0, 1); pool_t p = mk_tp(2); { pool_t q = std::move(p); asym_window(1); auto fu = start(q, [](auto r) { ba::create_continuation_timeout(tfin(r, 2), sdur(), wsub(0), wsub(1)); }); finish(fu); } asym_window(0); CHECK(ncb == 1, "again"); CHECK(ran[0] == 1 && ran[1] == 1, "a subtask did not run exactly once"); asym_reach("end"); }
// callback based
template<class E> static void eslot(int i, E& e) { CHECK(setn[i] == 1, "the callback ran before a subtask had finished"); bool th = false; try { CHECK(e.get() == V[i], "another value"); } catch (myerr& m) { th = true; CHECK(m.i == i, "another exception"); } CHECK(th == T[i], "wrong outcome"); if (th) asym_reach("throws"); else asym_reach("value"); }
template<class R> auto cfin(R r) { return [r](auto t) mutable { CHECK(++ncb == 1, "the callback ran twice"); if constexpr (requires { t.size(); }) { CHECK(t.size() == 3, "size"); for (int i = 0; i < 3; i++) eslot(i, t[i]); } else { eslot(0, std::get<0>(t)); eslot(1, std::get<1>(t)); eslot(2, std::get<2>(t)); } r.set_value(RES); }; }
extern "C" void cb_job() { typedef ba::any_callable J; inputs(3); clock_(); pool_t p = order_pool(TIER ? 4 : 2); int how = sym_choice("how", 4); sdur d; d.zero = sym_choice("zero", 2);
    if (how == 3) { auto fu = ba::post_future(p, [d] { return ba::parallel_invoke_timeout<J>(d, wsub(0), wsub(1), wsub(2)); }); auto t = fu.get(); eslot(0, std::get<0>(t)); eslot(1, std::get<1>(t)); eslot(2, std::get<2>(t)); }
    else { auto fu = start(p, [how, d](auto r) { switch (how) { case 0: ba::create_callback_continuation_job_timeout<J>(cfin(r), d, wsub(0), wsub(1), wsub(2)); break; case 1: { wsub a(0), b(1), c(2); auto e = ba::detail::make_expected_tuple(a, b, c); ba::create_callback_continuation_job_timeout<J>(cfin(r), d, e, std::make_tuple(a, b, c)); break; } default: ba::create_callback_continuation_job_timeout<J>(cfin(r), d, std::vector<wsub>{wsub(0), wsub(1), wsub(2)}); } }); finish(fu); }
    for (int i = 0; i < 3; i++) CHECK(ran[i] == 1, "a subtask did not run exactly once"); asym_reach("end"); }
// combinations
static auto ic(int i) { return ba::top_level_callback_continuation<int>(wsub(i)); }
struct vs : ba::continuation_task<void> { int i; vs(int i_) : ba::continuation_task<void>("vs"), i(i_) {} void operator()() { auto r = this->this_task_result(); ++ran[i]; ++setn[i]; if (T[i]) r.set_exception(std::make_exception_ptr(myerr{i})); else r.set_value(); } };
static auto vc(int i) { return ba::top_level_callback_continuation<void>(vs(i)); }
struct ls : ba::continuation_task<long> { int i; ls(int i_) : ba::continuation_task<long>("ls"), i(i_) {} void operator()() { auto r = this->this_task_result(); ++ran[i]; ++setn[i]; if (T[i]) r.set_exception(std::make_exception_ptr(myerr{i})); else r.set_value((long)V[i] + 1); } };
static auto lc(int i) { return ba::top_level_callback_continuation_force_post<long>(ls(i)); }
static void comb(ba::combined_exception const& e, int n) { auto const& u = e.underlying_exceptions(); CHECK((int)u.size() == n, "the combined exception misses some"); for (int i = 0; i < n; i++) { bool ok = false; try { if (u[i]) std::rethrow_exception(u[i]); } catch (myerr& m) { ok = m.i == i; } CHECK(ok, "the combined exception holds another one"); } }
static bool allfail(int n) { bool a = true; for (int i = 0; i < n; i++) a &= T[i]; return a; }
static bool anyfail(int n) { bool a = false; for (int i = 0; i < n; i++) a |= T[i]; return a; }
template<class FU, class G> static void any_end(FU& fu, int n, G g) { bool th = false; try { auto r = fu.get(); size_t k = r.index(); CHECK(k < (size_t)n, "any_of's index is out of range"); CHECK(!T[k] && setn[k] == 1, "any_of took one which failed or has not finished"); g(k, r.value()); asym_reach("value"); } catch (ba::combined_exception& e) { th = true; comb(e, n); asym_reach("combined"); } CHECK(th == allfail(n), "any_of failed although one succeeded, or the reverse"); }
extern "C" void any_n() { int n = 2 + sym_choice("n", 3); inputs(n); pool_t p = order_pool(TIER ? 4 : 2); { pool_t q = std::move(p);
    if (n == 2) { auto fu = ba::post_future(q, [] { return ba::any_of(ic(0), ic(1)); }); any_end(fu, 2, [](size_t k, auto& v) { CHECK(boost::get<int>(v) == V[k], "any_of's value"); }); }
    else if (n == 3) { auto fu = ba::post_future(q, [] { return ba::any_of(vc(0), ic(1), lc(2)); }); any_end(fu, 3, [](size_t k, auto& v) { if (k == 1) CHECK(boost::get<int>(v) == V[1], "any_of's value"); if (k == 2) CHECK(boost::get<long>(v) == (long)V[2] + 1, "any_of's value"); }); }
    else { auto fu = ba::post_future(q, [] { return ba::any_of(ic(0), lc(1), ic(2), lc(3)); }); any_end(fu, 4, [](size_t k, auto& v) { if (k & 1) CHECK(boost::get<long>(v) == (long)V[k] + 1, "any_of's value"); else CHECK(boost::get<int>(v) == V[k], "any_of's value"); }); } }
    for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "a continuation did not run exactly once"); asym_reach("end"); }
template<class FU, class G> static void all_end(FU& fu, int n, G g) { bool th = false; int k = -1; try { auto r = fu.get(); for (int i = 0; i < n; i++) CHECK(setn[i] == 1, "all_of finished too early"); g(r); asym_reach("value"); } catch (myerr& m) { th = true; k = m.i; asym_reach("throws"); } CHECK(th == anyfail(n), "all_of lost or invented a failure"); if (th) CHECK(k >= 0 && k < n && T[k], "all_of's exception is of another"); }
template<class R> static void tup4(R& r) { CHECK(std::get<0>(r) == V[0], "all_of's value 0"); CHECK(std::get<1>(r) == V[1], "all_of's value 1"); CHECK(std::get<3>(r) == (long)V[3] + 1, "all_of's value 3"); }
static std::vector<decltype(ic(0))> ics(int b, int n) { std::vector<decltype(ic(0))> v; for (int i = 0; i < n; i++) v.push_back(ic(b + i)); return v; }
extern "C" void all_n() { int how = sym_choice("how", 4), n = how < 2 ? 4 : how == 2 ? sym_choice("n", 5) : 2; inputs(n); pool_t p = order_pool(TIER ? 4 : 2); { pool_t q = std::move(p);
    if (how == 0) { auto fu = ba::post_future(q, [] { return ba::all_of(ic(0), ic(1), vc(2), lc(3)); }); all_end(fu, 4, [](auto& r) { tup4(r); }); }
    else if (how == 1) { auto fu = ba::post_future(q, [] { return ba::all_of(std::make_tuple(ic(0), ic(1), vc(2), lc(3))); }); all_end(fu, 4, [](auto& r) { tup4(r); }); }
    else if (how == 2) { auto fu = ba::post_future(q, [n] { return ba::all_of(ics(0, n)); }); all_end(fu, n, [n](auto& r) { CHECK((int)r.size() == n, "all_of's size"); for (int i = 0; i < n; i++) CHECK(r[i] == V[i], "all_of's value"); }); }
    else { auto fu = ba::post_future(q, [] { std::vector<decltype(vc(0))> v; v.push_back(vc(0)); v.push_back(vc(1)); return ba::all_of(std::move(v)); }); all_end(fu, 2, [](auto& r) { CHECK(r.size() == 2, "all_of's size"); }); } }
    for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "a continuation did not run exactly once"); asym_reach("end"); }
static auto llc(int i) { return ba::top_level_callback_continuation<int>(lsub(i)); }
static void feeders(int n) { while (here < n) boost::this_thread::yield(); asym_window(1); boost::thread a([] { lset(0); }), b([] { lset(1); }); a.join(); b.join(); }
extern "C" void any_late() { inputs(2); pool_t p = qpool(); { pool_t q = std::move(p); auto fu = ba::post_future(q, [] { return ba::any_of(llc(0), llc(1)); }); feeders(2); any_end(fu, 2, [](size_t k, auto& v) { CHECK(boost::get<int>(v) == V[k], "any_of's value"); }); } asym_window(0); asym_reach("end"); }
extern "C" void all_late() { inputs(2); bool vec = sym_choice("vector", 2); pool_t p = qpool(); { pool_t q = std::move(p); auto g = [](auto& r) { if constexpr (requires { r.size(); }) CHECK(r.size() == 2 && r[0] == V[0] && r[1] == V[1], "all_of's values"); else CHECK(std::get<0>(r) == V[0] && std::get<1>(r) == V[1], "all_of's values"); };
    if (vec) { auto fu = ba::post_future(q, [] { std::vector<decltype(llc(0))> v; v.push_back(llc(0)); v.push_back(llc(1)); return ba::all_of(std::move(v)); }); feeders(2); all_end(fu, 2, g); } else { auto fu = ba::post_future(q, [] { return ba::all_of(llc(0), llc(1)); }); feeders(2); all_end(fu, 2, g); } } asym_window(0); asym_reach("end"); }
extern "C" void combo() { bool anyall = sym_choice("any of all", 2); inputs(4); pool_t p = order_pool(TIER ? 3 : 1); { pool_t q = std::move(p);
    if (anyall) { auto fu = ba::post_future(q, [] { return ba::any_of(ba::all_of(ics(0, 2)), ba::all_of(ics(2, 2))); }); bool f0 = T[0] | T[1], f1 = T[2] | T[3], th = false; try { auto r = fu.get(); size_t k = r.index(); CHECK(k < 2 && !(k ? f1 : f0), "took a failed one"); auto& v = boost::get<std::vector<int>>(r.value()); CHECK(v.size() == 2, "size"); CHECK(v[0] == V[2 * k] && v[1] == V[2 * k + 1], "values"); asym_reach("value"); } catch (ba::combined_exception& e) { th = true; asym_reach("throws"); } CHECK(th == (f0 && f1), "any_of of all_of"); }
    else { auto fu = ba::post_future(q, [] { return ba::all_of(ba::any_of(ic(0), ic(1)), ba::any_of(ic(2), ic(3))); }); bool f0 = T[0] & T[1], f1 = T[2] & T[3], th = false; try { auto t = fu.get(); size_t a = std::get<0>(t).index(), b = std::get<1>(t).index(); CHECK(a < 2 && b < 2, "index"); CHECK(!T[a] && !T[2 + b], "took a failed one"); CHECK(boost::get<int>(std::get<0>(t).value()) == V[a] && boost::get<int>(std::get<1>(t).value()) == V[2 + b], "values"); asym_reach("value"); } catch (ba::combined_exception& e) { th = true; asym_reach("throws"); } CHECK(th == (f0 || f1), "all_of of any_of"); } }
    for (int i = 0; i < 4; i++) CHECK(ran[i] == 1, "a continuation did not run exactly once"); asym_reach("end"); }
