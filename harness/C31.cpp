//@ walk | lazy_irange iterator: any mix of ++, --, post-forms, += -=, +, -, then dereference, [], ->, distance and all comparisons against the index | an arbitrary position, then 1 operation (thorough 2), every start, end, position and offset within +-2^61; index types long, size_t
//@ small | the same over int and unsigned indices | an arbitrary position, then 1 operation (thorough 2), every 32-bit start, end and offset (int: within +-2^30)
//@ bounds | at()/operator[] of the range: value inside, std::logic_error outside; size, setstart, setend | every 64-bit start, end and index
//@ counting | parallel_for, parallel_count_if and parallel_reduce over a lazy range and over integral bounds see each index exactly once | length 0..6, cutoff 1..4, every start value, 1 departure from the order
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/helpers/lazy_irange.hpp>

struct val { uint64_t x; };
template<class N> static void wander(N lo, N hi) {
    auto mk = [](const char* n) { return (N)asym_make(n, sizeof(N) * 8); };
    N s = mk("s"), e = mk("e"), p = mk("p"); asym_assume((lo <= s) & (s < e) & (e <= hi)); asym_assume((s <= p) & (p <= e)); uint64_t salt = asym_make("salt", 64);
    auto f = [salt](N i) { return val{(uint64_t)i ^ salt}; }; auto r = ba::lazy_irange(s, e, f); auto it = r.begin(), b = r.begin(), z = r.end(); it += p - s;
    for (int k = 0; k < 1 + TIER; k++) {
        N q = mk("q"); asym_assume((s <= q) & (q <= e)); N o = q - p;      // a jump to any position, forwards or backwards
        switch (sym_choice("op", 8)) {
          case 0: q = p + 1; asym_assume(p < e); { auto x = ++it; CHECK(x == it, "++ does not return the new position"); } break;
          case 1: q = p - 1; asym_assume(p > s); { auto x = --it; CHECK(x == it, "-- does not return the new position"); } break;
          case 2: q = p + 1; asym_assume(p < e); { auto x = it++; CHECK(x.position() == p, "post-++ does not return the old position"); } break;
          case 3: q = p - 1; asym_assume(p > s); { auto x = it--; CHECK(x.position() == p, "post--- does not return the old position"); } break;
          case 4: it += o; break;
          case 5: it -= (N)(p - q); break;
          case 6: { auto old = it; it = it + o; CHECK(old.position() == p, "+ changed its operand"); } break;
          case 7: { auto old = it; it = it - (N)(p - q); CHECK(old.position() == p, "- changed its operand"); } break;
        }
        p = q; CHECK(it.position() == p, "iterator at the wrong position");
    }
    CHECK((it - b) == ((long)p - (long)s), "wrong distance"); CHECK((z - it) == ((long)e - (long)p), "wrong distance"); CHECK((b - it) == -((long)p - (long)s), "wrong negative distance");
    const char* cm = "comparison disagrees with the positions"; CHECK((it == b) == (p == s), cm); CHECK((it != b) == (p != s), cm); CHECK((it < z) == (p < e), cm); CHECK((it <= z) == (p <= e), cm); CHECK((z > it) == (e > p), cm); CHECK((z >= it) == (e >= p), cm);
    if (p < e) { CHECK((*it).x == ((uint64_t)p ^ salt), "wrong element"); CHECK(it->x == ((uint64_t)p ^ salt), "wrong element"); }
    N w = mk("w"); asym_assume((s <= w) & (w < e)); CHECK(it[w - p].x == ((uint64_t)w ^ salt), "wrong element at an offset"); { asym_reach("deref"); }
    asym_reach("end");
}
extern "C" void walk() { if (sym_flip("unsigned")) wander<size_t>(0, 1ul << 62); else wander<long>(-(1L << 61), 1L << 61); }
extern "C" void small_() asm("small"); extern "C" void small_() { if (sym_flip("unsigned")) wander<unsigned>(0, ~0u); else wander<int>(-(1 << 30), 1 << 30); }
extern "C" void bounds() {
    long s = (long)asym_make("s", 64), e = (long)asym_make("e", 64), i = (long)asym_make("i", 64); long d; asym_assume(s <= e); asym_assume(!__builtin_sub_overflow(e, s, &d)); auto f = [](long k) { return ~k; }; auto r = ba::lazy_irange(s, e, f);
    if (sym_flip("set")) { auto r2 = ba::lazy_irange(0L, 0L, f); r2.setstart(s); r2.setend(e); r = r2; CHECK(r.size() == e - s, "setstart/setend lost"); }
    bool th = false; long v = 0; try { v = sym_flip("how") ? r.at(i) : r[i]; } catch (std::logic_error const&) { th = true; }
    bool in = (i >= s) & (i < e); CHECK(th == !in, "bounds check wrong"); if (!th) CHECK(v == ~i, "wrong element"); CHECK(r.size() == d, "wrong size"); asym_reach("end");
}
extern "C" void counting() {
    shape sh = sym_shape(6, 4); long s = (long)asym_make("s", 64); asym_assume((s >= -(1L << 62)) & (s <= (1L << 62))); int n = sh.n; static int hits[8]; for (int& h : hits) h = 0; auto p = order_pool(1); bool bad = false;
    auto hit = [&, s, n](long i) { bool ok = (i >= s) & (i - s < n); if (!ok) { bad = true; return; } for (int k = 0; k < n; k++) hits[k] += i - s == k; };
    auto f = [](long i) { return i; }; auto r = ba::lazy_irange(s, s + n, f); auto b = r.begin(), e = r.end(); unsigned c = sym_choice("alg", 2);
    if (c == 0) in_pool(p, [&] { return ba::parallel_for(b, e, [hit](long i) { hit(i); }, sh.cut); });
    else if (n > 0) { long t = in_pool(p, [&] { return ba::parallel_reduce(b, e, [](long a, long x) { return a + x; }, sh.cut); }); long w = 0; for (int k = 0; k < n; k++) w += s + k; CHECK((uint64_t)t == (uint64_t)w, "parallel_reduce over a lazy range: wrong total"); }
    CHECK(!bad, "an index outside the range was visited"); if (c == 0) for (int k = 0; k < n; k++) CHECK(hits[k] == 1, "an index was not visited exactly once"); asym_reach("end");
}
