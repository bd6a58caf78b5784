//@ expire idle=400 reach=end | a timer armed with its own duration or with a new one calls back once, without error, in the owner's thread, not before it expires | every duration from -5 ms to 50 ms in ns, 2 ways to arm, asio pool with 1..2 threads
//@ cancel idle=400 reach=expired,cancelled | a timer cancelled at some time calls back once: before it expires with an error, later without | every duration from 1 ms to 100 ms in ns, cancelled after 1..9 naps of 10 ms
//@ rearm idle=400 reach=end | arming again before the expiry ends the first wait with an error and starts a second one with the new duration | 2 durations from 30 to 60 ms in ns
//@ gone idle=400 reach=end,fired | the owner goes before or after the expiry: no callback afterwards, no error then either | every duration from 1 ms to 60 ms in ns, destroyed after 1..5 naps
//@ replaced idle=400 reach=end | the timer object is destroyed or replaced by its owner: its wait ends with an error, once | every duration from 30 ms to 60 ms in ns, 2 ways
//@ two idle=400 reach=end | two waits on one timer, two timers: each wait is answered once; cancel_one answers the older wait alone, cancel both | either duration from 20 to 60 ms in ns, 4 ways to cancel
//@ ctor idle=400 reach=end,cancelled | a timer made with a function, or waited on directly, calls it once in the asio thread | every duration from 1 to 60 ms in ns, 2 ways, cancelled or not
//@ chain idle=800 reach=end | a callback arms the timer again: the periods add up | 2 periods from 1 ms to 15 ms in ns and one of 15 ms
//@ worker idle=400 reach=end | the owner lives on an asio scheduler itself, its own or another one | every duration from 1 to 50 ms in ns
//@ race_cancel idle=400 preempt=2 t.preempt=3 time=250 reach=end,ok,err | cancel interleaved with the expiry: one callback | duration 10 ms, cancelled after 9 ms, asio thread, owner's thread and the main thread
//@ race_gone idle=400 preempt=2 t.preempt=3 time=250 reach=end,ok,none | the owner's end interleaved with the expiry: at most one callback, none after the owner is gone | duration 10 ms, end after 8..11 ms, asio thread, owner's thread and the main thread
#include "pools.h"
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_deadline_timer.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
inline pool_t mk_asio(int n) { return ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<ba::sequential_push_policy>, nosave>>(n); }
typedef boost::system::error_code ec; typedef std::chrono::nanoseconds ns; typedef ba::asio_deadline_timer_proxy timer_p;
static void nap(int n) { for (int i = 0; i < n; ++i) boost::this_thread::sleep_for(boost::chrono::milliseconds(10)); }
static int ok_[3], err_[3]; static std::vector<int> seq; static bool alive; static boost::thread::id own; static uint64_t t0; static const int MS = 1000000;
static void clear() { for (int i = 0; i < 3; ++i) ok_[i] = err_[i] = 0; seq.clear(); alive = false; }
static void in_owner() { CHECK(boost::this_thread::get_id() == own, "callback outside the owner's thread"); CHECK(alive, "callback after the owner is gone"); }
struct Own : ba::trackable_servant<> {
    std::shared_ptr<timer_p> t, u; int left = 0; int d[3]; uint64_t due = 0;
    Own(ba::any_weak_scheduler<> s, pool_t w, int dur, int dur2) : ba::trackable_servant<>(s, w) { own = boost::this_thread::get_id(); alive = true; t0 = asym_clock(); t = std::make_shared<timer_p>(get_worker(), ns(dur)); if (dur2) u = std::make_shared<timer_p>(get_worker(), ns(dur2)); }
    ~Own() { alive = false; }
    auto cb(int i, uint64_t when) { return [this, i, when](const ec& e) { in_owner(); if (e) { CHECK(e == boost::asio::error::operation_aborted, "another error"); err_[i]++; } else { ok_[i]++; CHECK(asym_clock() >= when, "callback before the expiry"); } seq.push_back(i); }; }
    void start(int i, int dur) { async_wait(i == 2 ? *u : *t, cb(i, t0 + dur)); }
    void again(int i, int dur) { t0 = asym_clock(); async_wait_duration(*t, ns(dur), cb(i, t0 + dur)); }
    void cancel() { t->cancel(); } void cancel_one() { t->cancel_one(); } void cancel_u() { u->cancel(); } void drop() { t.reset(); } void swap_(int dur) { t = std::make_shared<timer_p>(get_worker(), ns(dur)); }
    void period(int a, int b, int c) { d[0] = a; d[1] = b; d[2] = c; due = asym_clock(); next(); }
    void next() { due += d[left]; async_wait_duration(*t, ns(d[left]), [this](const ec& e) { in_owner(); CHECK(!e, "aborted"); ok_[left]++; CHECK(asym_clock() >= due, "before the sum of the periods"); due = asym_clock(); if (++left < 3) next(); }); }
};
struct OwnP : ba::servant_proxy<OwnP, Own> { template <class S> OwnP(S s, pool_t w, int d, int d2 = 0) : ba::servant_proxy<OwnP, Own>(s, w, d, d2) {}
    BOOST_ASYNC_FUTURE_MEMBER(start) BOOST_ASYNC_FUTURE_MEMBER(again) BOOST_ASYNC_FUTURE_MEMBER(cancel) BOOST_ASYNC_FUTURE_MEMBER(cancel_one) BOOST_ASYNC_FUTURE_MEMBER(cancel_u) BOOST_ASYNC_FUTURE_MEMBER(drop) BOOST_ASYNC_FUTURE_MEMBER(swap_) BOOST_ASYNC_FUTURE_MEMBER(period) };
#define DONE() CHECK(asym_nthreads() == 1, "a thread outlives its scheduler")
extern "C" void expire() { int d = sym_int("duration", -5 * MS, 50 * MS); bool fresh = sym_flip("new duration"); int n = 1 + sym_choice("asio threads", 2); clear();
    { pool_t w = mk_asio(n); pool_t o = mk_single(); OwnP x(o, w, fresh ? MS : d); if (fresh) x.again(0, d).get(); else x.start(0, d).get(); nap(9); CHECK(ok_[0] == 1 && err_[0] == 0, "not called back once, without error"); } CHECK(ok_[0] == 1 && err_[0] == 0, "called back again at the end"); DONE(); asym_reach("end"); }
extern "C" void cancel() { int d = sym_int("duration", MS, 100 * MS), k = 1 + sym_choice("naps", 9); clear();
    { pool_t w = mk_asio(1); pool_t o = mk_single(); OwnP x(o, w, d); x.start(0, d).get(); nap(k); x.cancel().get(); uint64_t at = asym_clock(); nap(2); CHECK(ok_[0] + err_[0] == 1, "not called back once"); nap(10); CHECK(ok_[0] + err_[0] == 1, "called back twice");
        if (err_[0]) { asym_reach("cancelled"); CHECK(at <= t0 + d + 10 * MS, "an error although it had expired long before"); } else asym_reach("expired"); }
    DONE(); }
extern "C" void rearm() { int d = sym_int("first", 30 * MS, 60 * MS), e = sym_int("second", 30 * MS, 60 * MS); clear();
    { pool_t w = mk_asio(1); pool_t o = mk_single(); OwnP x(o, w, d); x.start(0, d).get(); nap(1); x.again(1, e).get(); nap(2); CHECK(err_[0] == 1 && ok_[0] == 0, "the first wait was not aborted"); nap(8); CHECK(err_[0] == 1 && ok_[0] == 0 && ok_[1] == 1 && err_[1] == 0, "the second wait was not answered once"); } DONE(); asym_reach("end"); }
extern "C" void gone() { int d = sym_int("duration", MS, 60 * MS), k = 1 + sym_choice("naps", 5); clear(); { pool_t w = mk_asio(1); pool_t o = mk_single(); { OwnP x(o, w, d); x.start(0, d).get(); nap(k); } ba::post_future(o, [] {}).get(); int c = ok_[0]; CHECK(!alive, "the owner was not destroyed"); nap(9); CHECK(ok_[0] == c && c <= 1 && err_[0] == 0, "called back after the end of the owner"); if (c) asym_reach("fired"); } DONE(); asym_reach("end"); }
extern "C" void replaced() { int d = sym_int("duration", 30 * MS, 60 * MS); bool sw = sym_flip("replaced"); clear(); { pool_t w = mk_asio(1); pool_t o = mk_single(); OwnP x(o, w, d); x.start(0, d).get(); nap(1); if (sw) { x.swap_(d).get(); x.start(1, d).get(); } else x.drop().get(); nap(9); CHECK(err_[0] == 1 && ok_[0] == 0, "the destroyed timer did not end its wait with an error"); CHECK(ok_[1] == sw, "the new timer did not expire"); } DONE(); asym_reach("end"); }
extern "C" void two() { int c = sym_choice("cancel", 4); bool u = sym_flip("second"); int d = u ? 30 * MS : sym_int("first", 20 * MS, 60 * MS), e = u ? sym_int("second", 20 * MS, 60 * MS) : 40 * MS; clear();
    { pool_t w = mk_asio(1); pool_t o = mk_single(); OwnP x(o, w, d, e); x.start(0, d).get(); x.start(1, d).get(); x.start(2, e).get(); if (c == 1) x.cancel().get(); else if (c == 2) x.cancel_one().get(); else if (c == 3) x.cancel_u().get(); nap(9);
        for (int i = 0; i < 3; ++i) CHECK(ok_[i] + err_[i] == 1, "a wait was not answered once");
        CHECK(err_[0] == (c == 1 || c == 2) && err_[1] == (c == 1) && err_[2] == (c == 3), "the wrong wait was aborted"); } DONE(); asym_reach("end"); }
extern "C" void ctor() { bool direct = sym_flip("direct"), can = sym_flip("cancelled"); int d = sym_int("duration", can ? 20 * MS : MS, 60 * MS); static boost::thread::id at; clear(); uint64_t b = asym_clock();
    { pool_t w = mk_asio(1); auto f = [d, b](const ec& e) { at = boost::this_thread::get_id(); if (e) err_[0]++; else { ok_[0]++; CHECK(asym_clock() >= b + d, "before the expiry"); } }; std::shared_ptr<timer_p> t; if (direct) { t = std::make_shared<timer_p>(w, ns(d)); t->async_wait(f); } else t = std::make_shared<timer_p>(w, ns(d), f); if (can) { t->cancel(); asym_reach("cancelled"); }
        nap(9); CHECK(ok_[0] == !can && err_[0] == can, "the function was not called once"); CHECK(at == w.thread_ids()[0], "not in the asio thread"); } DONE(); asym_reach("end"); }
extern "C" void chain() { int a = sym_int("a", MS, 15 * MS), b = sym_int("b", MS, 15 * MS), c = 15 * MS; clear(); { pool_t w = mk_asio(1); pool_t o = mk_single(); OwnP x(o, w, MS); x.period(a, b, c).get(); nap(18); CHECK(ok_[0] == 1 && ok_[1] == 1 && ok_[2] == 1, "not called back once per period"); } DONE(); asym_reach("end"); }
extern "C" void worker() { int d = sym_int("duration", MS, 50 * MS); bool same = sym_flip("same"); clear(); { pool_t w = mk_asio(1); pool_t o = same ? w : mk_asio(1); { OwnP x(o, w, d); x.start(0, d).get(); nap(9); CHECK(ok_[0] == 1 && err_[0] == 0, "not called back once, without error"); } ba::post_future(o, [] {}).get(); CHECK(!alive, "the owner was not destroyed"); } CHECK(ok_[0] == 1 && err_[0] == 0, "called back again at the end"); DONE(); asym_reach("end"); }
extern "C" void race_cancel() { clear(); { pool_t w = mk_asio(1); pool_t o = mk_single(); OwnP x(o, w, 10 * MS); x.start(0, 10 * MS).get(); asym_window(1); boost::this_thread::sleep_for(boost::chrono::milliseconds(9)); x.cancel(); nap(3); asym_window(0); CHECK(ok_[0] + err_[0] == 1, "not called back once"); } DONE(); CHECK(ok_[0] + err_[0] == 1, "not called back once"); if (ok_[0]) asym_reach("ok"); if (err_[0]) asym_reach("err"); if (!ok_[0]) asym_reach("none"); asym_reach("end"); }
extern "C" void race_gone() { int k = 8 + sym_choice("sleep", 4); clear(); { pool_t w = mk_asio(1); pool_t o = mk_single(); { OwnP x(o, w, 10 * MS); x.start(0, 10 * MS).get(); asym_window(1); boost::this_thread::sleep_for(boost::chrono::milliseconds(k)); } nap(3); asym_window(0); CHECK(ok_[0] <= 1 && err_[0] == 0, "called back more than once"); CHECK(!alive, "the owner lives on"); } DONE(); if (ok_[0]) asym_reach("ok"); if (err_[0]) asym_reach("err"); if (!ok_[0]) asym_reach("none"); asym_reach("end"); }
