//@ integral reach=end,split | find_cutoff over integral positions (long, int, unsigned, size_t, short): split strictly inside, whole chunk exactly when short enough | every begin <= end (difference representable), every cutoff of the full 64-bit range >= 1
//@ random reach=end,split | find_cutoff and find_cutoff_and_prev over random-access iterators (lazy ranges, 64-bit positions) | every begin <= end within +-2^62, every cutoff 1..2^63-1
//@ vectors | the same over std::vector and std::deque iterators: cutting the whole range down to chunks | length 0..8, every cutoff 1..2^63-1
//@ nodes | find_cutoff, find_cutoff_and_prev, safe_advance over std::list and std::forward_list: cutting the whole range down to chunks | length 0..8, every cutoff 1..2^63-1
#include "asym.h"
#include <memory>
#include <stdexcept>
#include <vector>
#include <deque>
#include <list>
#include <forward_list>
#include <boost/asynchronous/algorithm/detail/safe_advance.hpp>
#include <boost/asynchronous/helpers/lazy_irange.hpp>
namespace ba = boost::asynchronous; namespace bd = boost::asynchronous::detail;
static long sym_l(const char* n, long lo, long hi) { long v = (long)asym_make(n, 64); asym_assume((v >= lo) & (v <= hi)); return v; }
static const long MX = 0x7fffffffffffffffL;
// one split of [b,e) with the cutoff c: everything else follows by induction on the length
template<class T> static void one(T b, T e, long c) {
    T r = bd::find_cutoff(b, c, e); long len = (long)e - (long)b; long lim = c == 1 ? 2 : c;    // integral ranges may leave two elements together
    CHECK((r >= b) & (r <= e), "find_cutoff: left the range"); CHECK(r == e ? len <= lim || len == 0 : (r > b), "find_cutoff: no progress, or a chunk longer than the cutoff"); if (r != e) { CHECK(len > c, "find_cutoff: a range within the cutoff was split"); asym_reach("split"); } asym_reach("end");
}
extern "C" void integral() {
    switch (sym_choice("type", 5)) {
      case 0: { long b = (long)asym_make("b", 64), e = (long)asym_make("e", 64); long d; asym_assume(b <= e); asym_assume(!__builtin_sub_overflow(e, b, &d)); one<long>(b, e, sym_l("c", 1, MX)); break; }
      case 1: { int b = sym_i32("b"), e = sym_i32("e"); int d; asym_assume(b <= e); asym_assume(!__builtin_sub_overflow(e, b, &d)); one<int>(b, e, sym_l("c", 1, MX)); break; }
      case 2: { unsigned b = sym_i32("b"), e = sym_i32("e"); asym_assume(b <= e); one<unsigned>(b, e, sym_l("c", 1, MX)); break; }
      case 3: { size_t b = asym_make("b", 64), e = asym_make("e", 64); asym_assume((b <= e) & (e <= (size_t)MX)); one<size_t>(b, e, sym_l("c", 1, MX)); break; }
      case 4: { short b = (short)asym_make("b", 16), e = (short)asym_make("e", 16); asym_assume(b <= e); one<short>(b, e, sym_l("c", 1, MX)); break; }
    }
}
extern "C" void random_() asm("random"); extern "C" void random_() {
    auto f = [](long i) { return i; }; auto rg = ba::lazy_irange<decltype(f), long>(0, 0, f); typedef decltype(rg.begin()) It; const long H = 1L << 62;
    long b = sym_l("b", -H, H), e = sym_l("e", -H, H), c = sym_l("c", 1, MX); asym_assume(b <= e); It ib(&rg, b), ie(&rg, e); long len = e - b;
    It r = bd::find_cutoff(ib, c, ie); long p = r.position(); CHECK((p >= b) & (p <= e), "find_cutoff: left the range"); CHECK(p == e ? len <= c : p > b, "find_cutoff: no progress, or a chunk longer than the cutoff"); if (p != e) { CHECK(len > c, "find_cutoff: a range within the cutoff was split"); asym_reach("split"); }
    auto q = bd::find_cutoff_and_prev(ib, c, ie); long q1 = q.first.position(), q2 = q.second.position(); CHECK(q2 == p, "find_cutoff_and_prev: differs from find_cutoff"); CHECK(p == e ? q1 == e : (q1 == p - 1) & (q1 >= b), "find_cutoff_and_prev: prev is not the element before the split");
    asym_reach("end");
}
template<class It> static void chunks(It b, It e, long c, int& depth, std::vector<int>& sizes, std::vector<int>& seen) {
    CHECK(++depth < 64, "splitting does not terminate"); It m = bd::find_cutoff(b, c, e);
    if (m == e) { int k = 0; for (It i = b; i != e; ++i) { seen.push_back(*i); k++; } sizes.push_back(k); return; }
    chunks(b, m, c, depth, sizes, seen); chunks(m, e, c, depth, sizes, seen);
}
template<class C> static void whole(C& v, int n, long c) {
    int d = 0; std::vector<int> sz, seen; chunks(v.begin(), v.end(), c, d, sz, seen); CHECK((int)seen.size() == n, "chunks do not cover the range once"); for (int i = 0; i < (int)seen.size(); i++) CHECK(seen[i] == i, "chunks overlap or leave a gap"); for (int k : sz) CHECK(k <= c, "a chunk is longer than the cutoff"); for (int k : sz) CHECK(k > 0 || n == 0, "an empty chunk");
    asym_out("chunks", sz.size()); asym_reach("end");
}
extern "C" void vectors() { int n = sym_choice("n", 9); long c = sym_l("c", 1, MX); if (sym_flip("deque")) { std::deque<int> v; for (int i = 0; i < n; i++) v.push_back(i); whole(v, n, c); } else { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); whole(v, n, c); } }
extern "C" void nodes() {
    int n = sym_choice("n", 9); long c = sym_l("c", 1, MX);
    if (sym_flip("forward")) { std::forward_list<int> v; for (int i = n - 1; i >= 0; i--) v.push_front(i); whole(v, n, c); }
    else { std::list<int> v; for (int i = 0; i < n; i++) v.push_back(i); whole(v, n, c);
        auto q = bd::find_cutoff_and_prev(v.begin(), c, v.end()); long want = c - 1 < n ? c - 1 : n, want2 = c < n ? c : n; CHECK(std::distance(v.begin(), q.first) == want && std::distance(v.begin(), q.second) == want2, "find_cutoff_and_prev: wrong positions in a list");
        auto it = v.begin(); long k = sym_l("k", 0, MX); bd::safe_advance(it, k, v.end()); CHECK(std::distance(v.begin(), it) == (k < n ? k : n), "safe_advance: wrong position in a list"); }
}
