//@ inclusive | parallel_inclusive_scan: iterators (also in place), moved ranges, single range, continuation; ordered concatenation with an initial value, T() not neutral | length 0..5, cutoff 1..3, 1 departure
//@ exclusive | parallel_exclusive_scan: iterators, moved ranges; ordered concatenation with an initial value, T() not neutral | length 0..5, cutoff 1..3, 1 departure
//@ transform | parallel_transform_inclusive_scan / _exclusive_scan: transform applied to each element, ordered concatenation | length 0..5, cutoff 1..3, 1 departure
//@ values | inclusive/exclusive scans with plus, maximum and bitwise and over symbolic values and initial value | length 0..5, symbolic values, cutoff 1..3, 1 departure
//@ partial_sum | parallel_partial_sum: iterators, moved ranges, single range, continuation; ordered concatenation and plus | length 0..5, cutoff 1..3, 1 departure
//@ scan | parallel_scan with reduce/combine/scan of the caller, scan with and without the total: iterators, moved ranges, single range, continuation | length 0..5, cutoff 1..3, 1 departure
//@ partial_sum_first finding | parallel_partial_sum with an operation whose neutral element is not T() | length 1..3, symbolic values, cutoff 1..2
#include "common.h"
#include <boost/asynchronous/algorithm/parallel_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_scan.hpp>
// a sequence whose default value is not empty, hence not neutral for concatenation
struct nseq : seq { nseq() { n = 1; a[0] = 555; } explicit nseq(int x) { n = 1; a[0] = x; } nseq(seq const& s) : seq(s) {} };
static nseq cat(nseq const& l, nseq const& r) { return nseq(static_cast<seq const&>(l) + static_cast<seq const&>(r)); }
struct cat_f { nseq operator()(nseq const& l, nseq const& r) const { return cat(l, r); } };
static std::vector<nseq> nvec(int n) { std::vector<nseq> v; for (int i = 0; i < n; i++) v.emplace_back(i); return v; }
// s is (init followed by) 0..n-1
static bool is_pref(seq const& s, int n, int init) { int o = init ? 1 : 0; if (s.n != n + o) return false; if (o && s.a[0] != init) return false; for (int i = 0; i < n; i++) if (s.a[o + i] != i) return false; return true; }
template<class V> static bool all_pref(V const& v, int n, int init, bool incl) { if ((int)v.size() != n) return false; for (int i = 0; i < n; i++) if (!is_pref(v[i], i + incl, init)) return false; return true; }
template<class V> static bool unchanged(V const& v, int n) { if ((int)v.size() != n) return false; for (int i = 0; i < n; i++) if (v[i].n != 1 || v[i].a[0] != i) return false; return true; }
static bool total(seq const& r, int n) { return n == 0 ? (r.n == 1 && r.a[0] == 555) : is_pref(r, n, 0); }
extern "C" void inclusive() {
    shape s = sym_shape(5 + TIER, 3); auto v = nvec(s.n); std::vector<nseq> out(s.n + 2, nseq(77)), res; auto p = order_pool(1); nseq init(99);
    switch (sym_choice("overload", 5)) {
        case 0: { nseq r = in_pool(p, [&] { return ba::parallel_inclusive_scan(v.begin(), v.end(), out.begin() + 1, init, cat_f(), s.cut); }); CHECK(total(r, s.n), "parallel_inclusive_scan: wrong total"); CHECK(unchanged(v, s.n), "parallel_inclusive_scan: changed its input");
            CHECK(out.front().a[0] == 77 && out.front().n == 1 && out.back().n == 1 && out.back().a[0] == 77, "parallel_inclusive_scan: wrote outside"); res.assign(out.begin() + 1, out.end() - 1); break; }
        case 1: in_pool(p, [&] { return ba::parallel_inclusive_scan(v.begin(), v.end(), v.begin(), init, cat_f(), s.cut); }); res = v; break;
        case 2: { auto r = in_pool(p, [&] { return ba::parallel_inclusive_scan(std::move(v), std::vector<nseq>(s.n), init, cat_f(), s.cut); }); CHECK(unchanged(r.first, s.n), "parallel_inclusive_scan: changed its input"); res = r.second; break; }
        case 3: res = in_pool(p, [&] { return ba::parallel_inclusive_scan(std::move(v), init, cat_f(), s.cut); }); break;
        case 4: res = in_pool(p, [&] { return ba::parallel_inclusive_scan(cb_source(v), init, cat_f(), s.cut); }); break;
    }
    CHECK(all_pref(res, s.n, 99, true), "parallel_inclusive_scan is not the sequential prefix operation"); asym_reach("end");
}
extern "C" void exclusive() {
    shape s = sym_shape(5 + TIER, 3); auto v = nvec(s.n); std::vector<nseq> out(s.n + 2, nseq(77)), res; auto p = order_pool(1); nseq init(99);
    switch (sym_choice("overload", 2)) {
        case 0: { nseq r = in_pool(p, [&] { return ba::parallel_exclusive_scan(v.begin(), v.end(), out.begin() + 1, init, cat_f(), s.cut); }); CHECK(total(r, s.n), "parallel_exclusive_scan: wrong total"); CHECK(unchanged(v, s.n), "parallel_exclusive_scan: changed its input");
            CHECK(out.front().a[0] == 77 && out.front().n == 1 && out.back().n == 1 && out.back().a[0] == 77, "parallel_exclusive_scan: wrote outside"); res.assign(out.begin() + 1, out.end() - 1); break; }
        case 1: { auto r = in_pool(p, [&] { return ba::parallel_exclusive_scan(std::move(v), std::vector<nseq>(s.n), init, cat_f(), s.cut); }); CHECK(unchanged(r.first, s.n), "parallel_exclusive_scan: changed its input"); res = r.second; break; }
    }
    CHECK(all_pref(res, s.n, 99, false), "parallel_exclusive_scan is not the sequential prefix operation"); asym_reach("end");
}
extern "C" void transform() {
    shape s = sym_shape(5 + TIER, 3); std::vector<int> v; for (int i = 0; i < s.n; i++) v.push_back(i + 10); auto o = v; std::vector<nseq> out(s.n + 2, nseq(77)); auto p = order_pool(1); nseq init(99), r; bool incl = sym_flip("inclusive");
    auto t = [](int const& a) { return nseq(a - 10); };
    if (incl) r = in_pool(p, [&] { return ba::parallel_transform_inclusive_scan(v.begin(), v.end(), out.begin() + 1, init, cat_f(), t, s.cut); });
    else r = in_pool(p, [&] { return ba::parallel_transform_exclusive_scan(v.begin(), v.end(), out.begin() + 1, init, cat_f(), t, s.cut); });
    CHECK(total(r, s.n), "parallel_transform_scan: wrong total"); CHECK(v == o, "parallel_transform_scan: changed its input");
    CHECK(out.front().a[0] == 77 && out.front().n == 1 && out.back().n == 1 && out.back().a[0] == 77, "parallel_transform_scan: wrote outside");
    CHECK(all_pref(std::vector<nseq>(out.begin() + 1, out.end() - 1), s.n, 99, incl), "parallel_transform_scan is not the sequential prefix operation"); asym_reach("end");
}
extern "C" void values() {
    shape s = sym_shape(5 + TIER, 3); auto v = sym_vec(s.n), o = v; std::vector<int> out(s.n, 0); auto p = order_pool(1); int init = sym_i32("init"); int op = sym_choice("op", 3); bool incl = sym_flip("inclusive"); int r;
    auto f = [op](int const& a, int const& b) -> int { return op == 0 ? (int)((unsigned)a + (unsigned)b) : op == 1 ? (a < b ? b : a) : (a & b); };
    if (incl) r = in_pool(p, [&] { return ba::parallel_inclusive_scan(v.begin(), v.end(), out.begin(), init, f, s.cut); });
    else r = in_pool(p, [&] { return ba::parallel_exclusive_scan(v.begin(), v.end(), out.begin(), init, f, s.cut); });
    int acc = init, tot = 0; bool ok = true;
    for (int i = 0; i < s.n; i++) { int nx = f(acc, o[i]); ok &= out[i] == (incl ? nx : acc); acc = nx; tot = i ? f(tot, o[i]) : o[i]; }
    CHECK(ok, "scan is not the sequential prefix operation"); CHECK(r == tot, "scan: wrong total"); CHECK(same(v, o), "scan: changed its input"); asym_out("r", r); asym_reach("end");
}
extern "C" void partial_sum() {
    shape s = sym_shape(5 + TIER, 3); auto v = seq_vec(s.n); std::vector<seq> out(s.n + 2, seq(77)), res; auto p = order_pool(1); auto f = [](seq const& a, seq const& b) { return a + b; };
    switch (sym_choice("overload", 5)) {
        case 0: { seq r = in_pool(p, [&] { return ba::parallel_partial_sum(v.begin(), v.end(), out.begin() + 1, f, s.cut); }); CHECK(is_iota(r, s.n), "parallel_partial_sum: wrong total"); CHECK(unchanged(v, s.n), "parallel_partial_sum: changed its input");
            CHECK(out.front().a[0] == 77 && out.front().n == 1 && out.back().n == 1 && out.back().a[0] == 77, "parallel_partial_sum: wrote outside"); res.assign(out.begin() + 1, out.end() - 1); break; }
        case 1: { auto r = in_pool(p, [&] { return ba::parallel_partial_sum(std::move(v), std::vector<seq>(s.n), f, s.cut); }); CHECK(unchanged(r.first, s.n), "parallel_partial_sum: changed its input"); res = r.second; break; }
        case 2: res = in_pool(p, [&] { return ba::parallel_partial_sum(std::move(v), f, s.cut); }); break;
        case 3: res = in_pool(p, [&] { return ba::parallel_partial_sum(cb_source(v), f, s.cut); }); break;
        case 4: { auto w = sym_vec(s.n), o = w; std::vector<int> w2(s.n); in_pool(p, [&] { return ba::parallel_partial_sum(w.begin(), w.end(), w2.begin(), std::plus<int>(), s.cut); });
            bool ok = true; unsigned a = 0; for (int i = 0; i < s.n; i++) { a += (unsigned)o[i]; ok &= (unsigned)w2[i] == a; } CHECK(ok, "parallel_partial_sum with plus"); asym_reach("end"); return; }
    }
    CHECK(all_pref(res, s.n, 0, true), "parallel_partial_sum is not the sequential prefix operation"); asym_reach("end");
}
template<class I> static auto red() { return [](I b, I e) { nseq r; if (b == e) return r; r = *b; for (++b; b != e; ++b) r = cat(r, *b); return r; }; }
extern "C" void scan() {
    shape s = sym_shape(5 + TIER, 3); auto v = nvec(s.n); std::vector<nseq> out(s.n + 2, nseq(77)), res; auto p = order_pool(1); nseq init(99); typedef std::vector<nseq>::iterator I; bool tot_ok = true; int n = s.n; bool* tp = &tot_ok;
    auto sc4 = [](I b, I e, I o, nseq i) { for (; b != e; ++b) { i = cat(i, *b); *o++ = i; } };
    auto sc5 = [tp, n](I b, I e, I o, nseq i, nseq t) { if (!total(t, n)) *tp = false; for (; b != e; ++b) { i = cat(i, *b); *o++ = i; } };
    switch (sym_choice("overload", 5)) {
        case 0: { nseq r = in_pool(p, [&] { return ba::parallel_scan(v.begin(), v.end(), out.begin() + 1, init, red<I>(), cat_f(), sc4, s.cut); }); CHECK(total(r, s.n), "parallel_scan: wrong total"); CHECK(unchanged(v, s.n), "parallel_scan: changed its input"); res.assign(out.begin() + 1, out.end() - 1); break; }
        case 1: { nseq r = in_pool(p, [&] { return ba::parallel_scan(v.begin(), v.end(), out.begin() + 1, init, red<I>(), cat_f(), sc5, s.cut); }); CHECK(total(r, s.n), "parallel_scan: wrong total"); res.assign(out.begin() + 1, out.end() - 1); break; }
        case 2: { auto r = in_pool(p, [&] { return ba::parallel_scan(std::move(v), std::vector<nseq>(s.n), init, red<I>(), cat_f(), sc5, s.cut); }); CHECK(unchanged(r.first, s.n), "parallel_scan: changed its input"); res = r.second; break; }
        case 3: res = in_pool(p, [&] { return ba::parallel_scan(std::move(v), init, red<I>(), cat_f(), sc4, s.cut); }); break;
        case 4: res = in_pool(p, [&] { return ba::parallel_scan(cb_source(v), init, red<I>(), cat_f(), sc4, s.cut); }); break;
    }
    CHECK(tot_ok, "parallel_scan: the scan step was given a wrong total"); CHECK(all_pref(res, s.n, 99, true), "parallel_scan is not the sequential prefix operation");
    CHECK(out.front().a[0] == 77 && out.front().n == 1 && out.back().n == 1 && out.back().a[0] == 77, "parallel_scan: wrote outside"); asym_reach("end");
}
extern "C" void partial_sum_first() {
    int n = 1 + sym_choice("n", 3); long cut = 1 + sym_choice("cut", 2); auto v = sym_vec(n), o = v; std::vector<int> out(n); auto p = order_pool(1);
    in_pool(p, [&] { return ba::parallel_partial_sum(v.begin(), v.end(), out.begin(), [](int const& a, int const& b) { return a & b; }, cut); });
    int acc = 0; bool ok = true; for (int i = 0; i < n; i++) { acc = i ? acc & o[i] : o[i]; ok &= out[i] == acc; }
    CHECK(ok, "parallel_partial_sum: the first element is combined with T()"); asym_reach("end");
}
