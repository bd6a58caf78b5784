// shared by the C13 harnesses: functors that throw for symbolically chosen elements or calls
#pragma once
#include "common.h"
struct odd_ex { int code; };                                              // not derived from std::exception
struct std_ex : std::runtime_error { int code; std_ex(int c) : std::runtime_error("x"), code(c) {} };
static bool flag[24]; static unsigned thrown = 0, called = 0; static int kind = 0, srcmode = 0, callno = 0, throwat = -1;
// the functor's call for element id: throws if the solver says so
inline void hit(int id) { called++; if (asym_conc(flag[id]) != 0) { thrown |= 1u << id; if (kind) throw std_ex(id); throw odd_ex{id}; } }
// the k-th call of a comparison throws
inline void tick() { called++; int n = callno++; if (n == throwat) { thrown |= 1u << (n % 24); if (kind) throw std_ex(n % 24); throw odd_ex{n % 24}; } }
inline void init_throw(int n) { for (int i = 0; i < 24; i++) flag[i] = false; for (int i = 0; i < n; i++) flag[i] = sym_bool("throws"); thrown = called = 0; callno = 0; throwat = -1; kind = sym_choice("kind", 2); srcmode = 0; }
template<class F> void outcome(pool_t& p, F f, bool* ok = nullptr) {
    int ex = -1; auto fu = ba::post_future(p, std::move(f)); if (ok) *ok = false;
    try { fu.get(); if (ok) *ok = true; } catch (odd_ex const& e) { ex = e.code; CHECK(kind == 0, "exception of another type"); } catch (std_ex const& e) { ex = e.code; CHECK(kind == 1, "exception of another type"); } catch (std::runtime_error const&) { ex = 100; } catch (...) { ex = 101; }
    if (srcmode) { CHECK(ex == 100, "the exception of the source continuation is not the result"); CHECK(called == 0, "the functor was called although the source failed"); }
    else if (thrown) { CHECK(ex != -1, "an exception of a functor was lost"); CHECK(ex >= 0 && ex < 24 && (thrown >> ex & 1), "the result is not the exception a functor threw"); } else CHECK(ex == -1, "exception out of nothing");
}
inline std::vector<int> ids(int n, int from = 0) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(from + i); return v; }
// a source for continuation overloads, which may fail itself
template<class R> auto csrc(R v) { int m = sym_choice("source", 2); srcmode |= m; return cb_source(std::move(v), m); }
template<class R> auto fsrc(R v) { int m = sym_choice("source", 2); srcmode |= m; return fu_source(std::move(v), m); }
#define OV(k, e) case k: outcome(p, [&] { return e; }); break;
// assignment of this element throws
struct ta { int id = 0; ta() {} ta(int i) : id(i) {} ta(ta const& o) : id(o.id) {} ta(ta&& o) noexcept : id(o.id) {} ta& operator=(ta const& o) { hit(o.id); id = o.id; return *this; } ta& operator=(ta&& o) { hit(o.id); id = o.id; return *this; } };
