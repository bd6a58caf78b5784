//@ ops | operation histories compared with std::vector, with a pool: contents, sizes, returned positions, capacity, element lifetimes | start with 0 or 3 (thorough: 0..3) elements, every 2 operations (3 in the thorough tier) of 20, symbolic values, every position, cutoff 2
//@ serial | the same histories on a vector without a scheduler | as above
//@ ctors | construction (size, value, range, list, copy, move), assignment, swap, comparison, at | up to 4 elements, symbolic values, cutoff 1..2
//@ moved | a moved-from or cleared vector can be used again | every way to empty it x every way to fill it
//@ throws | an element constructor throws while elements are placed: the exception reaches the caller, constructed elements are destroyed once | 4 elements, k-th construction throws, cutoff 1..2, 1 departure
//@ throws_more | the same for push_back, emplace, insert, assign and copies: no element is lost or used outside its lifetime, a failed push_back changes nothing | 2..3 elements, 13 operations at every position, with or without room, k-th construction or assignment throws, cutoff 1..2, 1 departure
//@ async_ | async_push_back, async_resize, async_reserve, async_shrink_to_fit, async_merge_containers, make_asynchronous_range | up to 3 elements, symbolic values, cutoff 1..2
#include "common.h"
#include <boost/asynchronous/container/vector.hpp>
#include <boost/asynchronous/container/algorithms.hpp>
static int live = 0, bad = 0, made = 0, fail_at = -1;
struct E {
    int v; unsigned magic;
    static void tick() { if (fail_at >= 0 && made == fail_at) { fail_at = -1; throw std::runtime_error("element"); } made++; }
    void in() { tick(); if (magic == 0xA11FE) {} magic = 0xA11FE; live++; }
    E() : v(0) { in(); } E(int x) : v(x) { in(); } E(int a, int b) : v(a + b) { in(); }
    E(E const& o) : v(o.v) { if (o.magic != 0xA11FE) bad++; in(); } E(E&& o) noexcept : v(o.v) { if (o.magic != 0xA11FE) bad++; o.v = -1; magic = 0xA11FE; live++; }
    E& operator=(E const& o) { if (o.magic != 0xA11FE || magic != 0xA11FE) bad++; tick(); v = o.v; return *this; }
    E& operator=(E&& o) noexcept { if (o.magic != 0xA11FE || magic != 0xA11FE) bad++; int t = o.v; o.v = -1; v = t; return *this; }
    ~E() { if (magic != 0xA11FE) bad++; magic = 0xDEAD; live--; }
    bool operator==(E const& o) const { return v == o.v; } bool operator<(E const& o) const { return asym_conc(v < o.v) != 0; }
};
typedef ba::vector<E> A; typedef std::vector<int> S;
static void eqv(A const& a, S const& s, const char* w) {
    CHECK(a.size() == s.size(), w); CHECK(a.capacity() >= a.size(), "vector: capacity below size"); CHECK((size_t)(a.end() - a.begin()) == s.size() && a.empty() == s.empty(), "vector: begin/end/empty");
    bool ok = true; for (size_t i = 0; i < s.size(); i++) ok &= a[i].v == s[i] && a[i].magic == 0xA11FE; CHECK(ok, w);
}
static void lives(int base, size_t n) { CHECK(bad == 0, "vector: an element was used outside its lifetime"); CHECK(live == base + (int)n, "vector: elements constructed and destroyed do not match"); }
#define OP(name) "vector: " name " differs from std::vector"
static void step(A& a, S& s, int op) {
    int x = sym_i32("x"), y = sym_i32("y"); int n = (int)s.size(); auto pos = [&] { return (int)sym_choice("pos", n + 1); };
    switch (op) {
        case 0: { E e(x); a.push_back(e); s.push_back(x); eqv(a, s, OP("push_back")); break; }
        case 1: a.push_back(E(x)); s.push_back(x); eqv(a, s, OP("push_back(&&)")); break;
        case 2: a.emplace_back(x); s.push_back(x); eqv(a, s, OP("emplace_back")); break;
        case 3: if (n) { a.pop_back(); s.pop_back(); } eqv(a, s, OP("pop_back")); break;
        case 4: { int p = pos(); E e(x); auto it = a.insert(a.cbegin() + p, e); s.insert(s.begin() + p, x); eqv(a, s, OP("insert(value)")); CHECK(it == a.begin() + p, "vector: insert returned another position"); break; }
        case 5: { int p = pos(); auto it = a.insert(a.cbegin() + p, E(x)); s.insert(s.begin() + p, x); eqv(a, s, OP("insert(&&)")); CHECK(it == a.begin() + p, "vector: insert returned another position"); break; }
        case 6: { int p = pos(); size_t c = sym_choice("count", 3); E e(x); auto it = a.insert(a.cbegin() + p, c, e); s.insert(s.begin() + p, c, x); eqv(a, s, OP("insert(count)")); CHECK(it == a.begin() + p, "vector: insert returned another position"); break; }
        case 7: { int p = pos(); std::vector<E> src; src.reserve(2); src.emplace_back(x); src.emplace_back(y); int c = sym_choice("count", 3); auto it = a.insert(a.cbegin() + p, src.begin(), src.begin() + c); S t{x, y}; s.insert(s.begin() + p, t.begin(), t.begin() + c); eqv(a, s, OP("insert(range)")); CHECK(it == a.begin() + p, "vector: insert returned another position"); break; }
        case 8: { int p = pos(); auto it = a.emplace(a.cbegin() + p, x); s.insert(s.begin() + p, x); eqv(a, s, OP("emplace")); CHECK(it == a.begin() + p, "vector: emplace returned another position"); break; }
        case 9: { if (!n) break; int p = sym_choice("pos", n); auto it = a.erase(a.cbegin() + p); s.erase(s.begin() + p); eqv(a, s, OP("erase")); CHECK(it == a.begin() + p, "vector: erase returned another position"); break; }
        case 10: { int p = pos(), q = p + (int)sym_choice("to", n + 1 - p); auto it = a.erase(a.cbegin() + p, a.cbegin() + q); s.erase(s.begin() + p, s.begin() + q); eqv(a, s, OP("erase(range)")); CHECK(it == a.begin() + p, "vector: erase returned another position"); break; }
        case 11: { size_t c = sym_choice("count", n + 3); a.resize(c); s.resize(c); eqv(a, s, OP("resize")); break; }
        case 12: { size_t c = sym_choice("count", n + 3); E e(x); a.resize(c, e); s.resize(c, x); eqv(a, s, OP("resize(value)")); break; }
        case 13: { size_t c = sym_choice("count", n + 3); a.reserve(c); eqv(a, s, OP("reserve")); CHECK(a.capacity() >= c, "vector: reserve"); break; }
        case 14: a.clear(); s.clear(); eqv(a, s, OP("clear")); break;
        case 15: a.shrink_to_fit(); eqv(a, s, OP("shrink_to_fit")); break;
        case 16: { size_t c = sym_choice("count", 4); E e(x); a.assign(c, e); s.assign(c, x); eqv(a, s, OP("assign(count)")); break; }
        case 17: { std::vector<E> src; src.reserve(2); src.emplace_back(x); src.emplace_back(y); a.assign(src.begin(), src.end()); s.assign({x, y}); eqv(a, s, OP("assign(range)")); break; }
        case 18: a.assign({E(x), E(y), E(x)}); s.assign({x, y, x}); eqv(a, s, OP("assign(list)")); break;
        case 19: { if (!n) break; a.push_back(a[0]); s.push_back(S(s)[0]); eqv(a, s, OP("push_back of an own element")); break; }
        case 20: { if (!n) break; int p = pos(); a.insert(a.cbegin() + p, a[0]); s.insert(s.begin() + p, S(s)[0]); eqv(a, s, OP("insert of an own element")); break; }
    }
}
static void history(pool_t* p) {
    int base = live, n = TIER ? sym_choice("n", 4) : 3 * sym_choice("n", 2); S s; for (int i = 0; i < n; i++) s.push_back(sym_i32("v")); {
        std::vector<E> src; for (int v : s) src.emplace_back(v);
        A a = p ? A(*p, 2, src.begin(), src.end()) : A(src.begin(), src.end()); src.clear(); eqv(a, s, OP("construction")); lives(base, s.size());
        for (int i = 0; i < 2 + TIER; i++) { step(a, s, sym_choice("op", 21)); lives(base, s.size()); }
    } lives(base, 0);
}
extern "C" void ops() { auto p = order_pool(0); history(&p); asym_reach("end"); }
extern "C" void serial() { history(nullptr); asym_reach("end"); }

static A make(pool_t* p, S const& s) {
    std::vector<E> src; src.reserve(s.size()); for (int v : s) src.emplace_back(v);
    return p ? A(*p, 1 + (long)sym_choice("cut", 2), src.begin(), src.end()) : A(src.begin(), src.end());
}
static S svals(int lo, int hi) { S s; int n = lo + (int)sym_choice("n", hi - lo + 1); for (int i = 0; i < n; i++) s.push_back(sym_i32("v")); return s; }
extern "C" void ctors() {
    pool_t p = order_pool(0); pool_t* pp = sym_choice("pool", 2) ? &p : nullptr; int base = live; long cut = 1 + (long)sym_choice("cut", 2);
    switch (sym_choice("case", 9)) {
        case 0: { size_t n = sym_choice("n", 5); { A a = pp ? A(p, cut, n) : A(n); eqv(a, S(n), "vector: (n) constructor"); lives(base, n); } break; }
        case 1: { size_t n = sym_choice("n", 5); int x = sym_i32("x"); { E e(x); A a = pp ? A(p, cut, n, e) : A(n, e); eqv(a, S(n, x), "vector: (n,value) constructor"); lives(base + 1, n); } break; }
        case 2: { int x = sym_i32("x"), y = sym_i32("y"); { A a = pp ? A(p, cut, {E(x), E(y), E(x)}) : A({E(x), E(y), E(x)}); eqv(a, {x, y, x}, "vector: list constructor"); lives(base, 3); } break; }
        case 3: { S s = svals(0, 4); { A a = make(pp, s); A b(a); eqv(b, s, "vector: copy constructor"); eqv(a, s, "vector: source of a copy"); lives(base, 2 * s.size());
                  if (s.size()) { b[0].v = 77; CHECK(a[0].v == s[0], "vector: a copy shares its elements"); } } break; }
        case 4: { S s = svals(0, 4); { A a = make(pp, s); A b(std::move(a)); eqv(b, s, "vector: move constructor"); lives(base, s.size()); } break; }
        case 5: { S s = svals(0, 3), t = svals(0, 3); { A a = make(pp, s), b = make(pp, t); a = b; eqv(a, t, "vector: copy assignment"); eqv(b, t, "vector: source of an assignment"); lives(base, 2 * t.size()); } break; }
        case 6: { S s = svals(0, 2), t = svals(0, 3); { A a = make(pp, s), b = make(pp, t); a = std::move(b); eqv(a, t, "vector: move assignment"); } break; }
        case 7: { S s = svals(0, 3), t = svals(0, 2); { A a = make(pp, s), b = make(pp, t); a.swap(b); eqv(a, t, "vector: swap"); eqv(b, s, "vector: swap"); lives(base, s.size() + t.size()); } break; }
        case 8: { S s = svals(0, 3), t = svals(0, 2); { A a = make(pp, s), b = make(pp, t);
                  CHECK((a == b) == (s == t) && (a != b) == (s != t), "vector: equality"); CHECK((a < b) == (s < t) && (a <= b) == (s <= t), "vector: less"); CHECK((a > b) == (s > t) && (a >= b) == (s >= t), "vector: greater");
                  size_t i = sym_choice("at", 5); bool thrown = false; try { CHECK(a.at(i).v == s.at(i), "vector: at"); } catch (std::out_of_range&) { thrown = true; } CHECK(thrown == (i >= s.size()), "vector: at checks its index");
                  if (s.size()) { CHECK(a.front().v == s.front() && a.back().v == s.back() && a.data() == &a[0], "vector: front/back/data");
                    S r; for (auto it = a.rbegin(); it != a.rend(); ++it) r.push_back(it->v); CHECK(same(r, S(s.rbegin(), s.rend())), "vector: reverse iteration"); } } break; }
    }
    lives(base, 0); asym_reach("end");
}
extern "C" void moved() {
    pool_t p = order_pool(0); pool_t* pp = sym_choice("pool", 2) ? &p : nullptr; int base = live; S s = svals(1, 2); {
        A a = make(pp, s); A keep = make(pp, S());
        switch (sym_choice("empty", 4)) {
            case 0: { A b(std::move(a)); eqv(b, s, "vector: move"); break; }
            case 1: a.clear(); break;
            case 2: keep = std::move(a); a.clear(); break;
            case 3: { A b = make(pp, S()); a.swap(b); eqv(b, s, "vector: swap"); break; }
        }
        CHECK(a.size() == 0 && a.empty(), "vector: emptied vector has elements"); S t; step(a, t, sym_choice("op", 19)); step(a, t, TIER && sym_choice("op2", 2) ? 11 : 0);
    } lives(base, 0); asym_reach("end");
}
// the k-th construction throws, with k symbolic over every construction the operation performs
extern "C" void throws() {
    pool_t p = order_pool(1); pool_t* pp = sym_choice("pool", 2) ? &p : nullptr; int base = live; long cut = 1 + (long)sym_choice("cut", 2); unsigned op = sym_choice("case", 6); bool thrown = false, built = false; {
        E e(sym_i32("x")); std::vector<E> src; src.reserve(4); for (int i = 0; i < 4; i++) src.emplace_back(i); A a = make(pp, S{1, 2}); int b2 = live;
        fail_at = made + (int)sym_choice("k", 6);
        try { switch (op) {
            case 0: { A v = pp ? A(p, cut, (size_t)4) : A((size_t)4); built = true; break; }
            case 1: { A v = pp ? A(p, cut, (size_t)3, e) : A((size_t)3, e); built = true; break; }
            case 2: { A v = pp ? A(p, cut, src.begin(), src.end()) : A(src.begin(), src.end()); built = true; break; }
            case 3: { A v(a); built = true; break; }
            case 4: a.resize(5, e); break;
            case 5: a.reserve(9); break;
        } } catch (std::runtime_error& x) { thrown = true; }
        bool fired = fail_at < 0; fail_at = -1;
        CHECK(thrown == fired, "vector: the exception of an element constructor does not reach the caller"); CHECK(!(thrown && built), "vector: built although an element could not be");
        if (op < 4 || thrown) CHECK(live == b2, "vector: after a failed placement elements stay constructed or are destroyed twice"); CHECK(bad == 0, "vector: an element was used outside its lifetime");
        if (op >= 4 && thrown) eqv(a, {1, 2}, "vector: contents changed by an operation that failed");
    } lives(base, 0); asym_reach("end");
}
extern "C" void throws_more() {
    pool_t p = order_pool(1); pool_t* pp = sym_choice("pool", 2) ? &p : nullptr; int base = live; unsigned op = sym_choice("case", 13); bool room = sym_choice("room", 2); bool thrown = false; {
        E e(7); std::vector<E> src; src.reserve(4); for (int i = 0; i < 4; i++) src.emplace_back(i); A a = make(pp, S{1, 2, 3}); A b = make(pp, S{4, 5}); if (room) a.reserve(9); unsigned pos = op >= 2 && op < 7 ? sym_choice("pos", 4) : 0; int b2 = live; fail_at = made + (int)sym_choice("k", 8);
        try { switch (op) {
            case 0: a.push_back(e); break; case 1: a.emplace_back(3, 4); break; case 2: a.insert(a.cbegin() + pos, e); break; case 3: a.insert(a.cbegin() + pos, (size_t)2, e); break; case 4: a.insert(a.cbegin() + pos, src.begin(), src.begin() + 3); break; case 5: a.emplace(a.cbegin() + pos, 3, 4); break;
            case 6: a.insert(a.cbegin() + pos, E(9)); break; case 7: a.assign((size_t)4, e); break; case 8: a.assign(src.begin(), src.end()); break; case 9: a = b; break; case 10: b = a; break; case 11: a.resize(5); break; case 12: a.shrink_to_fit(); break;
        } } catch (std::runtime_error& x) { thrown = true; }
        bool fired = fail_at < 0; fail_at = -1;
        CHECK(thrown == fired, "vector: the exception of an element constructor does not reach the caller"); CHECK(bad == 0, "vector: an element was used outside its lifetime");
        CHECK(live == b2 + (int)a.size() - 3 + (int)b.size() - 2, "vector: elements constructed and destroyed do not match"); for (size_t i = 0; i < a.size(); i++) CHECK(a[i].magic == 0xA11FE, "vector: an element is not constructed"); for (size_t i = 0; i < b.size(); i++) CHECK(b[i].magic == 0xA11FE, "vector: an element is not constructed");
        if (op < 2 && thrown) eqv(a, {1, 2, 3}, "vector: contents changed by a push_back that failed");
    } lives(base, 0); asym_reach("end");
}
static A rel(pool_t& p, S const& s) { A a = make(&p, s); a.release_scheduler(); return a; }
template<class F> static auto inp(pool_t& p, F f) { return in_pool(p, std::move(f)); }
extern "C" void async_() {
    pool_t p = order_pool(1); int base = live; S s = svals(0, 3); {
        std::shared_ptr<A> a = std::make_shared<A>(rel(p, s)); bool cont = sym_choice("cont", 2);
        unsigned op = sym_choice("case", 7), extra = op >= 1 && op <= 3 ? sym_choice("reserved", 2) : 0; if (extra) { a->set_scheduler(p); a->reserve(7); a->release_scheduler(); }
        size_t n = op == 1 || op == 2 || op == 4 ? sym_choice("count", 6) : 0; int x = sym_i32("x"); S want = s; A r;
        auto src = [a, cont] { auto q = std::make_shared<A>(std::move(*a)); return ba::top_level_callback_continuation<A>(ba::make_lambda_continuation_wrapper([q] { return std::move(*q); }, "src")); };
        switch (op) {
            case 0: want.push_back(x); r = cont ? inp(p, [src, x] { return ba::async_push_back(src(), E(x)); }) : inp(p, [a, x] { return ba::async_push_back<A, E>(std::move(*a), E(x)); }); break;
            case 1: want.resize(n); r = cont ? inp(p, [src, n] { return ba::async_resize(src(), n); }) : inp(p, [a, n] { return ba::async_resize(std::move(*a), n); }); break;
            case 2: r = cont ? inp(p, [src, n] { return ba::async_reserve(src(), n); }) : inp(p, [a, n] { return ba::async_reserve(std::move(*a), n); }); CHECK(r.capacity() >= n, "async_reserve: capacity"); break;
            case 3: r = cont ? inp(p, [src] { return ba::async_shrink_to_fit(src()); }) : inp(p, [a] { return ba::async_shrink_to_fit(std::move(*a)); }); CHECK(r.capacity() == r.size(), "async_shrink_to_fit: capacity"); break;
            case 4: want = S(n); r = inp(p, [n] { return ba::make_asynchronous_range<A>(n, 1); }); break;
            case 5: { S t = svals(0, 2); want.insert(want.end(), t.begin(), t.end()); auto b = std::make_shared<A>(rel(p, t)); r = inp(p, [a, b] { return ba::async_merge_containers<A>(std::move(*a), std::move(*b)); }); break; }
            case 6: { S t = svals(0, 2), u = svals(0, 1); want.insert(want.end(), t.begin(), t.end()); want.insert(want.end(), u.begin(), u.end());
                      auto b = std::make_shared<std::vector<A>>(); b->push_back(std::move(*a)); b->push_back(rel(p, t)); b->push_back(rel(p, u)); r = inp(p, [b] { return ba::async_merge_containers<std::vector<A>>(std::move(*b)); }); break; }
        }
        r.set_scheduler(p); eqv(r, want, "asynchronous vector operation differs from std::vector"); r.push_back(E(5)); want.push_back(5); eqv(r, want, "push_back after an asynchronous operation"); CHECK(bad == 0, "vector: an element was used outside its lifetime");
    } lives(base, 0); asym_reach("end");
}
