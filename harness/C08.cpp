//@ life preempt=1 t.preempt=2 races rc time=200 | servant constructed, called through every kind of member macro, destroyed; the client drops its only proxy at once | single thread, 1 client, 4 calls
//@ two preempt=1 t.preempt=2 races rc time=250 | two threads hold copies of the proxy, call members and drop them in any order | single thread, 2 clients, 2 calls each
//@ ctor_throws preempt=1 t.preempt=2 rc time=100 reach=end,thrown | the servant's constructor may throw | single thread, 1 client
//@ member_throws preempt=1 t.preempt=2 rc time=100 reach=end,thrown,value | members may throw: future members, void members, posted members | single thread, 1 client, 5 calls
//@ args preempt=0 t.preempt=1 time=100 | argument values, several arguments, move-only results, references as values | single thread, 1 client
//@ unsafe_cb preempt=1 t.preempt=2 rc time=200 reach=end,thrown,value | members with a callback in the servant's thread, throwing members and callbacks | single thread, 1 client, 4 calls
//@ cb_member preempt=1 t.preempt=2 rc time=200 reach=end,thrown,value | members with a callback posted to another scheduler; last proxy dropped meanwhile | 2 single-thread schedulers, 1 client
//@ assign preempt=1 t.preempt=2 rc time=200 | proxies copy- and move-assigned over the last proxy of another servant | single thread, 1 client, 2 servants
//@ cast preempt=1 t.preempt=2 rc time=200 | dynamic_servant_proxy_cast to a base proxy which outlives the derived one | single thread, 1 client
//@ castm preempt=1 t.preempt=2 rc time=200 | the same for a servant in the second world: calls through both proxies keep their order | multiple-thread scheduler, 1 worker, 2 worlds
//@ inner preempt=1 t.preempt=2 rc time=200 | servant created by another servant of the same scheduler, in its thread | single thread, 1 client
//@ shared_fu preempt=1 t.preempt=2 rc time=200 reach=end,empty | proxy made from a future of an existing servant | single thread, 1 client
//@ simple preempt=1 t.preempt=2 rc time=200 | a servant with simple_ctor may be constructed by the caller, but runs and dies in its thread | single thread, 1 client
//@ mt preempt=1 t.preempt=1 rc races time=250 | two servants in two worlds of a multiple-thread scheduler: constructor, members, destructor all within the world | 1 worker, 2 worlds, 2 calls each
//@ mt2 preempt=1 t.preempt=2 rc races time=250 | a servant in the second world, two workers | 2 workers, 2 worlds, 2 calls
//@ mt_post preempt=0 t.preempt=1 time=100 | the posted member macros with and without a priority in the highest world | 1 worker, 2 worlds
//@ prio preempt=0 t.preempt=1 time=100 | constructor, destructor and member priorities with an any_queue_container | single thread, 3 queues
#include "pools.h"
#include <boost/asynchronous/servant_proxy.hpp>
static boost::thread::id tid; static std::vector<boost::thread::id> ids; static int nctor = 0, ndtor = 0, ncall[8], V[8]; static std::vector<int> logv; static int inside = 0; static bool anythread = false;
static void here(const char* m) { bool ok = false; for (auto& i : ids) ok |= (i == boost::this_thread::get_id()); if (!anythread) CHECK(ok, m); }
static void inputs() { for (int& v : V) v = sym_i32("arg"); logv.reserve(16); }
static void begin_(pool_t& p) { ids = p.thread_ids(); asym_window(1); }
struct enter { int& in; enter(int& i) : in(i) { CHECK(in == 0, "two calls of one servant overlap"); in = 1; boost::this_thread::yield(); } ~enter() { CHECK(in == 1, "two calls of one servant overlap"); in = 0; } };
struct serv { int state = 0; int in = 0; int a0;
    explicit serv(int a) : a0(a) { here("the servant was not constructed in its scheduler's thread"); nctor++; }
    serv(serv const&) = delete; ~serv() { here("the servant was not destroyed in its scheduler's thread"); CHECK(in == 0, "the servant died during a call"); in = 7; ndtor++; }
    void call(int i) { here("a member was not called in the scheduler's thread"); CHECK(in != 7, "a member was called on a dead servant"); enter e(in); ncall[i]++; logv.push_back(i); state++; }
    int add(int i, int x) { call(i); return x + a0; }
    void put(int i, int x) { call(i); CHECK(x == V[i], "a member got a wrong argument"); }
    int boom(int i, int x, bool t) { call(i); if (t) throw std::runtime_error("member"); return x; }
    void vboom(int i, bool t) { call(i); if (t) throw std::runtime_error("member"); }
    std::unique_ptr<int> uni(int i, std::unique_ptr<int> x, int const& y) { call(i); *x ^= y; return x; } };
struct prox : ba::servant_proxy<prox, serv> { template<class S, class... A> prox(S s, A... a) : ba::servant_proxy<prox, serv>(s, a...) {}
    BOOST_ASYNC_FUTURE_MEMBER(add) BOOST_ASYNC_POST_MEMBER(put) BOOST_ASYNC_FUTURE_MEMBER(boom) BOOST_ASYNC_FUTURE_MEMBER(vboom) BOOST_ASYNC_FUTURE_MEMBER(uni) };
static void calls_once(int n) { for (int i = 0; i < n; i++) CHECK(ncall[i] == 1, "a member call was not executed exactly once"); }
static void in_order(int a, int b) { int pa = -1, pb = -1; for (int k = 0; k < (int)logv.size(); k++) { if (logv[k] == a) pa = k; if (logv[k] == b) pb = k; } CHECK(pa >= 0 && pa < pb, "member calls of one client ran out of order"); }
static void died(int n = 1) { CHECK(nctor == n, "the servant was not constructed exactly once"); CHECK(ndtor == n, "the servant was not destroyed exactly once"); }
extern "C" void life() { inputs(); pool_t p = mk_single(); begin_(p); { std::future<int> f; { pool_t q = std::move(p); prox x(q, V[7]); q = pool_t(); f = x.add(0, V[0]); x.put(1, V[1]); x.put(2, V[2]); x.vboom(3, false); } asym_window(0); CHECK(f.get() == V[0] + V[7], "a member's result is wrong"); }
    calls_once(4); for (int i = 0; i < 3; i++) in_order(i, i + 1); died(); asym_reach("end"); }
extern "C" void two() { inputs(); pool_t p = mk_single(); begin_(p); { pool_t q = std::move(p); prox x(q, V[7]); q = pool_t(); boost::thread t([y = std::make_unique<prox>(x)]() mutable { y->put(2, V[2]); y->put(3, V[3]); y.reset(); }); { prox z(std::move(x)); z.put(0, V[0]); z.put(1, V[1]); } t.join(); }
    asym_window(0); calls_once(4); in_order(0, 1); in_order(2, 3); died(); asym_reach("end"); }
struct cserv { cserv(bool t) { here("the servant was not constructed in its scheduler's thread"); if (t) throw std::runtime_error("ctor"); nctor++; } ~cserv() { here("the servant was not destroyed in its scheduler's thread"); ndtor++; } int id(int x) { return x; } };
struct cprox : ba::servant_proxy<cprox, cserv> { template<class S> cprox(S s, bool t) : ba::servant_proxy<cprox, cserv>(s, t) {} BOOST_ASYNC_FUTURE_MEMBER(id) };
extern "C" void ctor_throws() { inputs(); bool t = sym_bool("throws"); pool_t p = mk_single(); begin_(p); bool caught = false; { pool_t q = std::move(p); try { cprox x(q, t); CHECK(x.id(V[0]).get() == V[0], "a member's result is wrong"); } catch (std::runtime_error&) { caught = true; asym_reach("thrown"); } q = pool_t(); }
    asym_window(0); CHECK(caught == t, "the constructor's exception was lost or invented"); died(t ? 0 : 1); asym_reach("end"); }
extern "C" void member_throws() { inputs(); bool t = sym_bool("throws"); pool_t p = mk_single(); begin_(p); bool c1 = false, c2 = false; int r = ~V[0], r2 = 0; { pool_t q = std::move(p); prox x(q, V[7]); q = pool_t(); auto f = x.boom(0, V[0], t); auto g = x.vboom(1, !t); x.put(2, V[2]); auto h = x.boom(3, V[3], t); auto k = x.add(4, V[4]);
        try { r = f.get(); } catch (std::runtime_error&) { c1 = true; } try { g.get(); } catch (std::runtime_error&) { c2 = true; } try { h.get(); } catch (std::runtime_error&) {} r2 = k.get(); }
    asym_window(0); CHECK(c1 == t && c2 == !t, "a member's exception was lost or invented"); if (t) asym_reach("thrown"); else { CHECK(r == V[0], "a member's result is wrong"); asym_reach("value"); } CHECK(r2 == V[4] + V[7], "a member's result is wrong"); calls_once(5); died(); asym_reach("end"); }
extern "C" void args() { inputs(); pool_t p = mk_single(); begin_(p); { pool_t q = std::move(p); prox x(q, V[7]); q = pool_t(); auto f = x.uni(0, std::make_unique<int>(V[0]), V[1]); auto g = x.add(1, V[2]); auto u = f.get(); CHECK(u && *u == (V[0] ^ V[1]), "a member's arguments or result are wrong"); CHECK(g.get() == V[2] + V[7], "a member's result is wrong"); } asym_window(0); died(); asym_reach("end"); }
struct uprox : ba::servant_proxy<uprox, serv> { template<class S, class... A> uprox(S s, A... a) : ba::servant_proxy<uprox, serv>(s, a...) {} BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(boom) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(vboom, 0) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(add, "add") };
extern "C" void unsafe_cb() { inputs(); bool t = sym_bool("throws"), ct = sym_bool("callback throws"); pool_t p = mk_single(); begin_(p); static int n[4]; static bool ex[4]; static int val[4]; { pool_t q = std::move(p); uprox x(q, V[7]); q = pool_t();
        x.boom([ct](ba::expected<int> e) { here("callback in a wrong thread"); n[0]++; ex[0] = e.has_exception(); if (!ex[0]) val[0] = e.get(); if (ct) throw std::logic_error("callback"); }, 0, V[0], t);
        x.vboom([ct](ba::expected<void> e) { here("callback in a wrong thread"); n[1]++; ex[1] = e.has_exception(); if (ct) throw std::logic_error("callback"); }, 1, !t);
        x.add([](ba::expected<int> e) { here("callback in a wrong thread"); n[2]++; ex[2] = e.has_exception(); if (!ex[2]) val[2] = e.get(); }, 2, V[2]); }
    asym_window(0); CHECK(n[0] == 1 && n[1] == 1 && n[2] == 1, "a callback was not called exactly once"); CHECK(ex[0] == t && ex[1] == !t && !ex[2], "a member's exception did not reach its callback"); if (!t) { CHECK(val[0] == V[0], "a callback got a wrong value"); asym_reach("value"); } else asym_reach("thrown"); CHECK(val[2] == V[2] + V[7], "a callback got a wrong value"); calls_once(3); died(); asym_reach("end"); }
struct pprox : ba::servant_proxy<pprox, serv> { template<class S, class... A> pprox(S s, A... a) : ba::servant_proxy<pprox, serv>(s, a...) {} BOOST_ASYNC_POST_CALLBACK_MEMBER(boom) BOOST_ASYNC_POST_CALLBACK_MEMBER(vboom, 0) };
extern "C" void cb_member() { inputs(); bool t = sym_bool("throws"); pool_t p = mk_single(), o = mk_single(); auto oid = o.thread_ids()[0]; begin_(p); static int n[2]; static bool ex[2]; static int val; { pool_t q = std::move(p); auto w = o.get_weak_scheduler(); { pprox x(q, V[7]); q = pool_t();
        x.boom([oid](ba::expected<int> e) { CHECK(boost::this_thread::get_id() == oid, "callback in a wrong thread"); n[0]++; ex[0] = e.has_exception(); if (!ex[0]) val = e.get(); }, w, 0, 0, V[0], t);
        x.vboom([oid](ba::expected<void> e) { CHECK(boost::this_thread::get_id() == oid, "callback in a wrong thread"); n[1]++; ex[1] = e.has_exception(); }, w, 0, 1, !t); } o = pool_t(); }
    asym_window(0); CHECK(n[0] == 1 && n[1] == 1, "a callback was not called exactly once"); CHECK(ex[0] == t && ex[1] == !t, "a member's exception did not reach its callback"); if (!t) { CHECK(val == V[0], "a callback got a wrong value"); asym_reach("value"); } else asym_reach("thrown"); calls_once(2); died(); asym_reach("end"); }
extern "C" void assign() { inputs(); pool_t p = mk_single(); begin_(p); bool mv = sym_flip("move"); { pool_t q = std::move(p); prox x(q, V[7]), y(q, V[6]); q = pool_t(); x.put(0, V[0]); if (mv) x = std::move(y); else x = y; x.put(1, V[1]); if (!mv) { prox& z = y; y = z; } } asym_window(0); CHECK(ncall[0] == 1 && ncall[1] == 1, "a member call was not executed exactly once"); died(2); asym_reach("end"); }
struct base { virtual int get(int i) = 0; virtual ~base() {} };
struct dserv : base { int w; int a0; int in = 0; dserv(int w_, int a) : w(w_), a0(a) { here("the servant was not constructed in its scheduler's thread"); nctor++; } ~dserv() { here("the servant was not destroyed in its scheduler's thread"); ndtor++; } int get(int i) override { here("a member was not called in the scheduler's thread"); enter e(in); ncall[i]++; logv.push_back(i); return a0; } };
struct dprox : ba::servant_proxy<dprox, dserv> { template<class S> dprox(S s, int a) : ba::servant_proxy<dprox, dserv>(s, 0, a) {} BOOST_ASYNC_FUTURE_MEMBER(get) };
struct bprox : ba::servant_proxy<bprox, base> { template<class D> bprox(D d) : ba::servant_proxy<bprox, base>(d) {} BOOST_ASYNC_FUTURE_MEMBER(get) };
extern "C" void cast() { inputs(); pool_t p = mk_single(); begin_(p); { pool_t q = std::move(p); auto x = std::make_unique<dprox>(q, V[7]); q = pool_t(); auto f = x->get(0); bprox b = ba::dynamic_servant_proxy_cast<bprox>(*x); x.reset(); auto g = b.get(1); CHECK(f.get() == V[7] && g.get() == V[7], "a member's result is wrong"); } asym_window(0); calls_once(2); in_order(0, 1); died(); asym_reach("end"); }
struct mdprox : ba::servant_proxy<mdprox, dserv> { mdprox(pool_t s, std::size_t w, int a) : ba::servant_proxy<mdprox, dserv>(std::make_tuple(s, w), 0, a) {} BOOST_ASYNC_FUTURE_MEMBER(get) };
extern "C" void castm() { inputs(); pool_t p = mk_mt(1, 2); begin_(p); { pool_t q = std::move(p); auto x = std::make_unique<mdprox>(q, 1, V[7]); q = pool_t(); auto f = x->get(0); auto h = x->get(1); bprox b = ba::dynamic_servant_proxy_cast<bprox>(*x); auto g = b.get(2); auto k = x->get(3); x.reset(); CHECK(f.get() == V[7] && g.get() == V[7], "a member's result is wrong"); } asym_window(0); calls_once(4); for (int i = 0; i < 3; i++) in_order(i, i + 1); died(); asym_reach("end"); }
// a servant owning the proxy of another servant of its own scheduler, created in the scheduler's thread
struct oserv { prox x; oserv(ba::any_weak_scheduler<> w) : x(get(w), V[7]) { here("the servant was not constructed in its scheduler's thread"); } typedef int requires_weak_scheduler; static pool_t held; static pool_t get(ba::any_weak_scheduler<>) { return held; } ~oserv() { here("the servant was not destroyed in its scheduler's thread"); CHECK(ndtor == 0, "an inner servant died before its owner"); } int go(int i) { x.put(i, V[i]); x.put(i + 1, V[i + 1]); return 1; } };
pool_t oserv::held;
struct oprox : ba::servant_proxy<oprox, oserv> { template<class S> oprox(S s) : ba::servant_proxy<oprox, oserv>(s) {} BOOST_ASYNC_FUTURE_MEMBER(go) };
extern "C" void inner() { inputs(); pool_t p = mk_single(); begin_(p); { pool_t q = std::move(p); oserv::held = q; { oprox x(q); x.go(0); x.go(2); } oserv::held = pool_t(); std::promise<void> pr; auto f = pr.get_future(); q.post([&pr] { pr.set_value(); }); f.get(); std::promise<void> p2; f = p2.get_future(); q.post([&p2] { p2.set_value(); }); f.get(); q = pool_t(); } asym_window(0); calls_once(4); for (int i = 0; i < 3; i++) in_order(i, i + 1); died(); asym_reach("end"); }
struct fprox : ba::servant_proxy<fprox, serv> { template<class S> fprox(S s, std::future<std::shared_ptr<serv>> f) : ba::servant_proxy<fprox, serv>(s, std::move(f)) {} BOOST_ASYNC_FUTURE_MEMBER(add) BOOST_ASYNC_POST_MEMBER(put) };
extern "C" void shared_fu() { inputs(); bool e = sym_bool("empty"); pool_t p = mk_single(); begin_(p); bool caught = false; { pool_t q = std::move(p); auto f = ba::post_future(q, [e] { return e ? std::shared_ptr<serv>() : std::make_shared<serv>(V[7]); }); try { fprox x(q, std::move(f)); q = pool_t(); x.put(1, V[1]); auto g = x.add(0, V[0]); CHECK(g.get() == V[0] + V[7], "a member's result is wrong"); } catch (ba::empty_servant&) { caught = true; asym_reach("empty"); } } asym_window(0); CHECK(caught == e, "an empty servant was accepted or a good one refused"); if (!e) { calls_once(2); in_order(1, 0); } died(e ? 0 : 1); asym_reach("end"); }
struct sserv { typedef int simple_ctor; sserv(ba::any_weak_scheduler<>, int a) : a0(a) { nctor++; } int a0; ~sserv() { here("the servant was not destroyed in its scheduler's thread"); ndtor++; } int add(int i, int x) { here("a member was not called in the scheduler's thread"); ncall[i]++; return x + a0; } };
struct sprox : ba::servant_proxy<sprox, sserv> { template<class S> sprox(S s, int a) : ba::servant_proxy<sprox, sserv>(s, a) {} BOOST_ASYNC_FUTURE_MEMBER(add) };
extern "C" void simple() { inputs(); pool_t p = mk_single(); begin_(p); { pool_t q = std::move(p); std::future<int> f; { sprox x(q, V[7]); sprox y(x); q = pool_t(); f = y.add(0, V[0]); } CHECK(f.get() == V[0] + V[7], "a member's result is wrong"); } asym_window(0); calls_once(1); died(); asym_reach("end"); }
// multiple-thread scheduler: everything of a servant belongs to its world
static int wd[3];
struct mserv { int w; int a0; mserv(int w_, int a) : w(w_), a0(a) { enter e(wd[w]); nctor_++; } static std::atomic<int> nctor_, ndtor_; ~mserv() { enter e(wd[w]); ndtor_++; } int add(int i, int x) { enter e(wd[w]); ncall[i]++; return x + a0; } void put(int i, int x) { enter e(wd[w]); CHECK(x == V[i], "a member got a wrong argument"); ncall[i]++; } };
std::atomic<int> mserv::nctor_, mserv::ndtor_;
struct mprox : ba::servant_proxy<mprox, mserv> { mprox(pool_t s, std::size_t w, int a) : ba::servant_proxy<mprox, mserv>(std::make_tuple(s, w), (int)w, a) {} BOOST_ASYNC_FUTURE_MEMBER(add) BOOST_ASYNC_POST_MEMBER(put) };
extern "C" void mt() { inputs(); pool_t p = mk_mt(1, 2); begin_(p); { pool_t q = std::move(p); mprox x(q, 0, V[7]); mprox y(q, 1, V[6]); q = pool_t(); auto f = x.add(0, V[0]); auto g = y.add(1, V[1]); { mprox z(std::move(x)); z.put(2, V[2]); } y.put(3, V[3]); CHECK(f.get() == V[0] + V[7] && g.get() == V[1] + V[6], "a member's result is wrong"); } asym_window(0); calls_once(4); CHECK(mserv::nctor_ == 2 && mserv::ndtor_ == 2, "a servant was not constructed and destroyed exactly once"); asym_reach("end"); }
extern "C" void mt2() { inputs(); pool_t p = mk_mt(2, 2); { mprox x(p, 1, V[7]); asym_window(1); pool_t q = std::move(p); { mprox y(q, 1, V[6]); q = pool_t(); y.add(0, V[0]); } auto g = x.add(1, V[1]); CHECK(g.get() == V[1] + V[7], "a member's result is wrong"); } asym_window(0); calls_once(2); CHECK(mserv::nctor_ == 2 && mserv::ndtor_ == 2, "a servant was not constructed and destroyed exactly once"); asym_reach("end"); }
// the macros with explicit priorities
struct qserv { static int seq_; int a; qserv(int a_) : a(a_) { logv.push_back(100); } ~qserv() { logv.push_back(101); } void f(int i) { logv.push_back(i); } int g(int i) { logv.push_back(i); return a; } };
struct qprox : ba::servant_proxy<qprox, qserv> { template<class S> qprox(S s) : ba::servant_proxy<qprox, qserv>(s, V[7]) {} BOOST_ASYNC_POST_MEMBER(f, 1) BOOST_ASYNC_FUTURE_MEMBER(g, 3) BOOST_ASYNC_SERVANT_POST_CTOR(3) BOOST_ASYNC_SERVANT_POST_DTOR(3) };
struct qprox_mt : ba::servant_proxy<qprox_mt, qserv> { qprox_mt(pool_t s, std::size_t w) : ba::servant_proxy<qprox_mt, qserv>(std::make_tuple(s, w), V[7]) {} void fp(int i) const { auto s = m_servant; this->post([s, i] { s->f(i); }); } };
extern "C" void prio() { inputs(); pool_t p = ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<>, nosave>>(ba::any_queue_container_config<gd>(3)); begin_(p); { pool_t q = std::move(p); qprox x(q); std::promise<void> go, in; auto gf = go.get_future().share(); auto nf = in.get_future(); q.post([gf, &in] { in.set_value(); gf.get(); }, 1); nf.get(); auto r = x.g(0); x.f(1); x.f(2); { qprox y(x); } q = pool_t(); go.set_value(); CHECK(r.get() == V[7], "a member's result is wrong"); }
    asym_window(0); CHECK(logv.size() == 5 && logv[0] == 100 && logv[1] == 1 && logv[2] == 2 && logv[3] == 0 && logv[4] == 101, "member priorities were not obeyed"); asym_reach("end"); }
struct wprox : ba::servant_proxy<wprox, mserv> { wprox(pool_t s, std::size_t w, int a) : ba::servant_proxy<wprox, mserv>(std::make_tuple(s, w), (int)w, a) {} BOOST_ASYNC_POST_MEMBER(put, 1) };
struct lprox : ba::servant_proxy<lprox, mserv> { lprox(pool_t s, std::size_t w, int a) : ba::servant_proxy<lprox, mserv>(std::make_tuple(s, w), (int)w, a) {} BOOST_ASYNC_POST_MEMBER_LOG(put, "put") };
struct l3prox : ba::servant_proxy<l3prox, mserv> { l3prox(pool_t s, std::size_t w, int a) : ba::servant_proxy<l3prox, mserv>(std::make_tuple(s, w), (int)w, a) {} BOOST_ASYNC_POST_MEMBER_LOG(put, "put", 1) };
template<class P> void mt_post_() { inputs(); pool_t p = ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<>, nosave>>(1, 2, ba::any_queue_container_config<gd>(2)); begin_(p); { P x(p, 1, V[7]); x.put(0, V[0]); P y(p, 1, V[6]); y.put(1, V[1]); p = pool_t(); } asym_window(0); calls_once(2); CHECK(mserv::nctor_ == 2 && mserv::ndtor_ == 2, "a servant was not constructed and destroyed exactly once"); asym_reach("end"); }
extern "C" void mt_post() { switch (sym_choice("macro", 3)) { case 0: mt_post_<wprox>(); break; case 1: mt_post_<mprox>(); break; default: mt_post_<l3prox>(); } }
