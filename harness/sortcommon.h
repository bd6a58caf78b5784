#pragma once
#include "common.h"
// a keyed element: sorted by key, identified by id
struct kv { int key = 0; int id = -1; };
inline bool kvlt(kv const& a, kv const& b) { return a.key < b.key; }
auto lt = [](kv const& a, kv const& b) { return a.key < b.key; };
auto gt = [](kv const& a, kv const& b) { return a.key > b.key; };
inline std::vector<kv> kv_vec(int n, int lo, int hi) { std::vector<kv> r(n); for (int i = 0; i < n; i++) { r[i].id = i; r[i].key = lo == hi ? sym_i32("k") : sym_int("k", lo, hi); } return r; }
// r is a permutation of o, sorted by f, and keeps the order of equivalent elements if stable
template<class V, class F> void sorted_ok(V const& r, std::vector<kv> const& o, F f, bool stable) {
    int n = o.size(); CHECK((int)r.size() == n, "sort: wrong length"); bool seen[48] = {}, perm = true, ord = true, st = true;
    for (int i = 0; i < n; i++) { int id = asym_conc(r[i].id); CHECK(id >= 0 && id < n, "sort: foreign element"); perm &= !seen[id]; seen[id] = true; perm &= r[i].key == o[id].key;
        if (i) { ord &= !f(r[i], r[i - 1]); st &= f(r[i - 1], r[i]) | (r[i - 1].id < r[i].id); } }
    CHECK(perm, "sort: not a permutation"); CHECK(ord, "sort: not sorted"); if (stable) CHECK(st, "stable sort: order of equivalent elements changed");
}
