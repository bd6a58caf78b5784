//@ big races preempt=1 time=70 t.time=600 idle=100 reach=end max-steps=400000000 | parallel_partition with two workers sharing the blocks of one range | 10000 elements in 10 blocks, 2 shapes (thorough: 4), 2 threads, 1 preemption
#include "common.h"
#include "pools.h"
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
extern "C" void big() {
    const int n = 10000; unsigned m = sym_choice("shape", TIER ? 4 : 2);
    std::vector<int> v(n); int* d = v.data(); int cnt = 0;
    for (int i = 0; i < n; i++) { int b = i / 1000; int t = m == 0 ? b >= 6 : m == 1 ? i % 7 == 0 : m == 2 ? (i & 1) : b & 1; d[i] = 2 * i + t; cnt += t; }
    auto p = mk_tp(2);
    asym_window(1);
    auto fu = ba::post_future(p, [&] { return ba::parallel_partition(d, d + n, [](int x) { return (x & 1) != 0; }, 2); });
    auto it = fu.get();
    asym_window(0);
    CHECK(it - d == cnt, "partition: boundary");
    std::vector<char> seen_(n); char* seen = seen_.data(); bool part = true, perm = true;
    for (int i = 0; i < n; i++) { int x = d[i]; part &= (x & 1) == (i < cnt); x >>= 1; if (x < 0 || x >= n || seen[x]) { perm = false; break; } seen[x] = 1; }
    CHECK(perm, "partition: not a permutation"); CHECK(part, "partition: does not separate by the predicate");
    asym_reach("end");
}
