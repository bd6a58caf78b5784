//@ chan time=400 reach=end,yes,no | channel_topic matches exactly the topics of the channel and its sub-channels | every subscribed topic and published topic of up to 3 (thorough: 4) symbolic characters out of "AB/."
//@ exact time=100 reach=end,yes,no | exact_topic matches exactly equal topics | every pair of topics of up to 3 symbolic characters
//@ store time=400 reach=end,got | the store of one thread against a reference: subscribe, unsubscribe, publish, nested calls out of handlers, handlers which want no more, or which throw | 1 subscriber and then 3 (thorough: 4) operations, 2 topics, event payloads symbolic
//@ resub time=100 reach=end | a handler which subscribes again while it handles an event neither loops nor gets the event twice | 1..2 subscribers, no topic / channels
//@ bus time=500 reach=end,got | servants of two schedulers and a publisher in a third (or one of theirs): every subscriber gets every later event once, in its thread and in order | 2 (thorough: 3) operations out of subscribe, unsubscribe, servant dies and publish; no topic / channel topics "a" "." "b"
//@ late time=300 reach=end | schedulers registering after a subscription get told about it, also a pool whose workers publish | order of registration and subscription, single thread and 2 workers
//@ gone_ time=300 reach=end | publishing to a scheduler which is gone, unsubscribing after that | 2 subscribers' schedulers, each destroyed or not
//@ race preempt=1 t.preempt=2 races time=600 reach=end,got | publish from another thread while the subscriber unsubscribes, dies or subscribes | 1 publisher, 1 subscriber
//@@ -DBOOST_UUID_NO_SIMD
#include "pools.h"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/notification/notification_proxy.hpp>
namespace sb = ba::subscription;
typedef sb::channel_topic<> ct; typedef sb::exact_topic<std::string> et; typedef sb::no_topic nt;
struct ev { int v; };
// ---- topics
static std::string sym_topic(const char* n, int max) { int k = sym_choice(n, max + 1); std::string s; for (int i = 0; i < k; i++) { int c = sym_choice("c", 4); s += "AB/."[c]; } return s; }
static std::vector<std::string> parts(std::string s) { while (!s.empty() && s.back() == '/') s.pop_back(); std::vector<std::string> r; if (s.empty()) return r; std::string cur; for (char c : s) { if (c == '/') { r.push_back(cur); cur.clear(); } else cur += c; } r.push_back(cur); return r; }
static bool ref_match(std::string const& own, std::string const& pub) { auto o = parts(own), p = parts(pub); if (p.size() < o.size()) return false; for (size_t i = 0; i < o.size(); i++) if (o[i] != "." && o[i] != p[i]) return false; return true; }
extern "C" void chan() { std::string o = sym_topic("own", TIER ? 4 : 3), p = sym_topic("published", TIER ? 4 : 3); bool e = ref_match(o, p); ct a(o), b{std::string(p)}; CHECK(a.matches(b) == e, "channel topic"); CHECK(a.matches(p) == e, "channel topic against a string"); CHECK((a == b) == (o == p) && (a != b) == (o != p), "equality"); CHECK(to_string(a) == o, "to_string"); asym_reach(e ? "yes" : "no"); asym_reach("end"); }
extern "C" void exact() { std::string o = sym_topic("own", 3), p = sym_topic("published", 3); et a(o), b{std::string(p)}; bool e = o == p; CHECK(a.matches(b) == e && a.matches(p) == e, "exact topic"); CHECK((a == b) == e && (a != b) == !e, "equality"); CHECK(nt{}.matches(nt{}) && nt{} == nt{} && !(nt{} != nt{}), "no topic"); asym_reach(e ? "yes" : "no"); asym_reach("end"); }
// ---- the store of one thread
static const char* tn[] = {"a", "b", ".", "a/b"};
struct sub_ { int topic; bool on = true; int what; std::vector<int> got; int due = 0; }; // what a handler does: 0 nothing, 1 wants no more, 2 unsubscribes itself, 3 unsubscribes number 0, 4 publishes once more, 5 subscribes another one, 6 throws
static std::vector<sub_> S; static std::vector<std::vector<int>> expect; static int V[8]; static int depth = 0;
typedef sb::local_subscription<ev, ct> store_t;
static store_t* st_; static void add(int topic, int what);
static void gone(int i) { st_->unsubscribe(i, ct(tn[S[i].topic])); S[i].on = false; }
static bool pub(int topic, int v) { return st_->publish(ev{v}, ct(tn[topic])); }
static void add(int topic, int what) { int i = S.size(); S.push_back({topic, true, what}); st_->subscribe([i](ev const& e, ct const& t) -> std::optional<bool> { CHECK(S[i].on, "an event for a subscriber which unsubscribed"); CHECK(ref_match(tn[S[i].topic], to_string(t)), "an event of another topic"); S[i].got.push_back(e.v); asym_reach("got"); switch (S[i].what) { case 1: S[i].on = false; return std::optional<bool>(false); case 2: gone(i); break; case 3: gone(0); break; case 4: if (!depth) { depth++; pub(S[i].topic == 2 ? 0 : S[i].topic, e.v ^ 1); depth--; } break; case 5: if (S.size() < 6) add(S[i].topic, 0); break; case 6: throw std::runtime_error("handler"); } return std::optional<bool>(true); }, i, ct(tn[topic])); }
extern "C" void store() { store_t st; st_ = &st; S.reserve(16); add(0, sym_choice("first", 6)); for (int& v : V) v = sym_i32("event"); for (int n = 0; n < (TIER ? 4 : 3); n++) { int op = sym_choice("op", 3);
    if (op == 0) { if (S.size() > 4) asym_kill(); add(sym_choice("topic", 2) * 2, sym_choice("what", 6)); } else if (op == 1) { int i = sym_choice("which", 3); if (i >= (int)S.size()) asym_kill(); gone(i); }
    else { int t = sym_choice("topic", 2); std::vector<size_t> had; std::vector<bool> on; bool busy = false; for (auto& s : S) { had.push_back(s.got.size()); on.push_back(s.on); busy |= s.on && (s.what == 3 || s.what == 4); } bool r = pub(t, V[n]); size_t due = 0; for (size_t i = 0; i < had.size(); i++) { bool m = on[i] && ref_match(tn[S[i].topic], tn[t]); size_t k = S[i].got.size() - had[i]; if (!busy) CHECK(k == m, "an event was not delivered exactly once to each current subscriber"); else { int c = 0; for (size_t j = had[i]; j < S[i].got.size(); j++) c += asym_conc(S[i].got[j] == V[n]) != 0; CHECK(m || !c, "an event for somebody else"); CHECK(c <= 1, "an event was delivered twice"); if (S[i].what != 1 && m && S[i].on) CHECK(c == 1, "an event was not delivered to a current subscriber"); } due += m && S[i].what != 1; }
        if (!busy) { CHECK(r == (due > 0), "publish: the answer whether somebody handled the event"); CHECK(st.m_publish_counter == 0, "still publishing"); for (size_t i = 0; i < S.size(); i++) CHECK(st.m_internal_subscribers.count(i) == S[i].on, "kept a subscriber which is gone, or lost one"); } } } asym_reach("end"); }
template<class T> struct re_ { typedef sb::local_subscription<ev, T> store; store s; int calls = 0, tok = 0; bool keep; T t; void again() { int k = tok++; s.subscribe([this, k](ev const&, T const&) -> std::optional<bool> { calls++; CHECK(calls < 8, "a handler which subscribes again is called for ever"); again(); return std::optional<bool>(keep); }, k, t); } };
template<class T> static void resub_(T t, bool keep) { re_<T> r{.keep = keep, .t = t}; r.again(); r.s.publish(ev{1}, t); CHECK(r.calls == 1, "an event reached a subscription made while it was handled"); r.s.publish(ev{2}, t); CHECK(r.calls == (keep ? 3 : 2), "subscriptions made by a handler"); }
extern "C" void resub() { bool keep = sym_choice("keep", 2); if (sym_choice("channels", 2)) resub_(ct("a"), keep); else resub_(nt{}, keep); asym_reach("end"); }
// ---- servants and schedulers
typedef std::vector<int> log_t; struct rec { int topic; log_t want, got; bool on = true; int serv; ba::subscription_token tok; }; static std::vector<rec> R; static bool chans; static boost::thread::id home[2]; static bool bad_thread = false;
struct sv : ba::trackable_servant<> { int h; sv(ba::any_weak_scheduler<> s, int h_) : ba::trackable_servant<>(s), h(h_) {}
    void sub(int i) { auto f = [this, i](ev const& e) { bad_thread |= boost::this_thread::get_id() != home[h]; R[i].got.push_back(e.v); }; R[i].tok = this->subscribe(f); }
    void subt(int i) { auto f = [this, i](ev const& e, ct const&) { bad_thread |= boost::this_thread::get_id() != home[h]; R[i].got.push_back(e.v); }; R[i].tok = this->subscribe(f, ct(tn[R[i].topic])); }
    void unsub(int i) { if (chans) this->unsubscribe<ev>(R[i].tok, ct(tn[R[i].topic])); else this->unsubscribe<ev>(R[i].tok); }
    void pub(int v, int t) { if (chans) this->publish(ev{v}, ct(tn[t])); else this->publish(ev{v}); } };
struct svp : ba::servant_proxy<svp, sv> { template<class S> svp(S s, int h) : ba::servant_proxy<svp, sv>(s, h) {} BOOST_ASYNC_FUTURE_MEMBER(sub) BOOST_ASYNC_FUTURE_MEMBER(subt) BOOST_ASYNC_FUTURE_MEMBER(unsub) BOOST_ASYNC_FUTURE_MEMBER(pub) };
typedef std::shared_ptr<sb::notification_proxy<>> np_t;
static void flush(pool_t& p) { for (int k = 0; k < 3; k++) for (auto& f : p.execute_in_all_threads([] {})) f.wait(); }
static void sync_(pool_t& p) { for (int k = 0; k < 2; k++) { ba::post_future(p, [] {}, "", 1).get(); flush(p); } }
struct bus_ { pool_t n, s[3]; np_t np; std::unique_ptr<svp> v[3], publ; bus_() { n = mk_single(); for (auto& p : s) p = mk_single(); home[0] = s[0].thread_ids()[0]; home[1] = s[1].thread_ids()[0]; np = std::make_shared<sb::notification_proxy<>>(n, n); }
    void reg(int i) { (void)sb::register_scheduler_to_notification(s[i].get_weak_scheduler(), np).get(); }
    void servants() { v[0].reset(new svp(s[0], 0)); v[1].reset(new svp(s[0], 0)); v[2].reset(new svp(s[1], 1)); publ.reset(new svp(s[2], 0)); }
    void settle() { for (int k = 0; k < 2; k++) for (auto& p : s) if (p.is_valid()) sync_(p); }
    void sub(int who, int topic) { int i = R.size(); R.push_back({topic, {}, {}, true, who}); if (chans) v[who]->subt(i).get(); else v[who]->sub(i).get(); settle(); }
    void unsub(int i) { v[R[i].serv]->unsub(i).get(); R[i].on = false; settle(); }
    void die(int who) { v[who].reset(); for (auto& r : R) if (r.serv == who) r.on = false; settle(); }
    // from: 0 and 2 servants of the first two schedulers, 3 the third scheduler
    void pub(int from, int x, int t) { for (auto& r : R) if (r.on && (!chans || ref_match(tn[r.topic], tn[t]))) r.want.push_back(x); if (from == 3) publ->pub(x, t).get(); else v[from]->pub(x, t).get(); settle(); check(); }
    void check() { for (auto& r : R) { CHECK(r.got.size() <= r.want.size(), "an event was delivered twice, or to somebody who did not ask for it"); CHECK(r.got.size() >= r.want.size(), "an event did not reach a subscriber"); for (size_t i = 0; i < r.want.size(); i++) CHECK(r.got[i] == r.want[i], "events arrived out of order"); if (!r.got.empty()) asym_reach("got"); } CHECK(!bad_thread, "an event was handled in another thread"); } };
extern "C" void bus() { R.reserve(16); chans = sym_choice("channels", 2); for (int& x : V) x = sym_i32("event"); { bus_ b; for (int i = 0; i < 3; i++) b.reg(i); b.servants(); b.settle(); b.sub(0, 0); bool dead[3] = {};
    for (int n = 0; n < (TIER ? 3 : 2); n++) { int op = sym_choice("op", 5); switch (op) { case 0: { int w = sym_choice("who", 3); if (dead[w]) asym_kill(); b.sub(w, chans ? sym_choice("topic", 2) * 2 : 0); break; } case 1: { int i = sym_choice("which", 2); if (i >= (int)R.size() || !R[i].on) asym_kill(); b.unsub(i); break; } case 2: { int w = sym_choice("who", 2); if (dead[w]) asym_kill(); dead[w] = true; b.die(w); break; }
        case 3: b.pub(3, V[n], chans ? sym_choice("topic", 2) : 0); break; default: { int f = 2; b.pub(f, V[n], 0); } } }
    b.pub(3, V[5], 0); b.pub(2, V[6], 0); b.pub(3, V[7], 0); } asym_reach("end"); }
extern "C" void late() { R.reserve(8); chans = sym_choice("channels", 2); bool first = sym_choice("subscribe first", 2), order = sym_choice("order", 2), pool = sym_choice("a pool publishes", 2); { bus_ b; pool_t w; if (pool) w = mk_tp(2); b.servants(); if (first) { b.sub(0, 0); b.sub(2, 0); } for (int i = 0; i < 3; i++) b.reg(order ? 2 - i : i); if (pool) (void)sb::register_scheduler_to_notification(w.get_weak_scheduler(), b.np, true).get(); b.settle(); if (!first) { b.sub(0, 0); b.sub(2, 0); } b.settle(); if (pool) flush(w); b.pub(3, 11, 0); b.pub(0, 12, 0); b.pub(2, 13, 0);
    if (pool) { for (auto& r : R) r.want.push_back(14); ba::post_future(w, [] { auto s = ba::get_thread_scheduler<>().lock(); if (chans) s.publish(ev{14}, ct("a")); else s.publish(ev{14}); }).get(); b.settle(); b.check(); } } asym_reach("end"); }
extern "C" void gone_() { R.reserve(8); chans = sym_choice("channels", 2); bool g0 = sym_choice("first gone", 2), g1 = sym_choice("second gone", 2); { bus_ b; for (int i = 0; i < 3; i++) b.reg(i); b.servants(); b.settle(); b.sub(0, 0); b.sub(2, 0); b.pub(3, 1, 0); if (g0) { b.die(0); b.die(1); b.s[0] = pool_t(); } if (g1) { b.die(2); b.s[1] = pool_t(); } for (int k = 0; k < 2; k++) b.pub(3, 2 + k, 0); if (!g0) { b.unsub(0); b.pub(3, 5, 0); b.sub(0, 0); b.pub(3, 6, 0); b.pub(3, 7, 0); } if (!g1) { b.unsub(1); b.pub(3, 8, 0); } } asym_reach("end"); }
extern "C" void race() { R.reserve(8); chans = false; int what = sym_choice("meanwhile", 4); { bus_ b; for (int i = 0; i < 3; i++) b.reg(i); b.servants(); b.settle(); b.sub(0, 0); if (what == 0) b.sub(1, 0); asym_window(1); auto f = b.publ->pub(1, 0), f2 = b.publ->pub(2, 0); std::future<void> g; switch (what) { case 0: g = b.v[1]->unsub(1); break; case 1: b.v[0].reset(); break; case 2: R.push_back({0, {}, {}, true, 2}); g = b.v[2]->sub(1); break; default: g = b.v[0]->pub(3, 0); } f.get(); f2.get(); if (g.valid()) g.get(); asym_window(0); b.settle();
    for (size_t i = 0; i < R.size(); i++) { log_t a; for (int x : R[i].got) if (x < 3) a.push_back(x); CHECK(a.size() <= 2, "an event was delivered twice"); for (size_t k = 1; k < a.size(); k++) CHECK(a[k] > a[k - 1], "events arrived out of order"); if (i == 0 && what != 1) { CHECK(a.size() == 2, "an event did not reach a subscriber"); asym_reach("got"); } } if (what == 3) CHECK(R[0].got.size() == 3, "an event did not reach a subscriber"); CHECK(!bad_thread, "an event was handled in another thread"); } asym_reach("end"); }
