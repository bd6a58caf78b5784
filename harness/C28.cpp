//@ plain time=100 | expected<T>, T default constructible: sequences of construct/copy/move/assign/self-assign/swap/set on three objects against a model; object counts, leaks | 3 operations (thorough 4), two kinds of exception, every value
//@ nodef time=100 | expected<T>, T not default constructible: the same | 3 operations (thorough 4), two kinds of exception, every value
//@ novalue time=100 | expected<void>: the same | 3 operations (thorough 4), two kinds of exception
//@ moveonly | expected of a move-only value moved through construction, assignment and set_value | every value
#include "asym.h"
#include <memory>
#include <vector>
#include <stdexcept>
#include <utility>
#include <boost/asynchronous/expected.hpp>
namespace ba = boost::asynchronous;
static int live = 0;
struct D { int v; D() : v(0) { ++live; } D(int x) : v(x) { ++live; } D(D const& o) : v(o.v) { ++live; } D(D&& o) noexcept : v(o.v) { o.v = -77; ++live; } D& operator=(D const&) = default; D& operator=(D&& o) noexcept { v = o.v; if (&o != this) o.v = -77; return *this; } ~D() { --live; v = -99; } };
struct N { int v; explicit N(int x) : v(x) { ++live; } N(N const& o) : v(o.v) { ++live; } N(N&& o) noexcept : v(o.v) { o.v = -77; ++live; } N& operator=(N const&) = default; N& operator=(N&& o) noexcept { v = o.v; if (&o != this) o.v = -77; return *this; } ~N() { --live; v = -99; } };
struct my_ex { int code; };
static std::exception_ptr mkex(int c) { if (c == 1) return std::make_exception_ptr(my_ex{41}); return std::make_exception_ptr(std::runtime_error("e")); }
template<class T> struct kind { static T mk(int x) { return T(x); } typedef ba::expected<T> E; static E val(int x) { return E(mk(x)); } static void set(E& e, int x) { e.set_value(mk(x)); } static int get(E& e) { return e.get().v; } static int cget(E const& e) { return e.get().v; } };
template<> struct kind<void> { typedef ba::expected<void> E; static E val(int) { return E(); } static void set(E& e, int) { e.set_value(); } static int get(E& e) { e.get(); return 0; } static int cget(E const& e) { e.get(); return 0; } };
// what an object holds: ex 0 none; known: the content is fixed (a moved-from object only has to be destructible and assignable)
struct model { bool known = true; int ex = 0; int v = 0; };
template<class T> static void look(ba::expected<T>& e, model const& m) {
    typedef kind<T> K; if (!m.known) return;
    CHECK(e.has_exception() == (m.ex != 0) && e.has_value() == (m.ex == 0), "expected: wrong answer about what it holds"); CHECK((bool)e.get_exception_ptr() == (m.ex != 0), "expected: wrong exception pointer");
    for (int c = 0; c < 2; c++) { int g = 0, x = 0; try { g = c ? K::cget(e) : K::get(e); } catch (my_ex const& q) { x = q.code == 41 ? 1 : 9; } catch (std::runtime_error const&) { x = 2; } catch (...) { x = 8; }
        CHECK(x == m.ex, "expected: get() threw the wrong thing"); if (!m.ex) CHECK(g == m.v, "expected: get() returned the wrong value"); }
}
template<class T> static void run() {
    typedef kind<T> K; typedef ba::expected<T> E; live = 0;
    { std::vector<std::unique_ptr<E>> o; std::vector<model> m;
      for (int i = 0; i < 2; i++) { unsigned c = sym_choice("init", 3); int x = std::is_void<T>::value ? 0 : sym_i32("x"); model q; if (c == 0) { o.emplace_back(new E(K::val(x))); q.v = x; } else { o.emplace_back(new E(mkex(c))); q.ex = c; } m.push_back(q); }
      for (int k = 0; k < 3 + TIER; k++) {
        unsigned op = sym_choice("op", 8), i = sym_choice("i", 2), j = 1 - i;
        switch (op) {
          case 0: if (!m[i].known) asym_kill(); o[j].reset(); o[j].reset(new E(*o[i])); m[j] = m[i]; break;                                    // copy construction
          case 1: { bool kn = m[i].known; o[j].reset(); o[j].reset(new E(std::move(*o[i]))); m[j] = m[i]; m[i].known = false; if (!kn) asym_kill(); break; }  // move construction
          case 2: if (!m[i].known) asym_kill(); *o[j] = *o[i]; m[j] = m[i]; break;                                                            // copy assignment
          case 3: if (!m[i].known) asym_kill(); *o[j] = std::move(*o[i]); m[j] = m[i]; m[i].known = false; break;                             // move assignment
          case 4: if (!m[i].known) asym_kill(); { E& a = *o[i]; E& b = *o[i]; a = b; } break;                                                 // self assignment
          case 5: { using std::swap; swap(*o[0], *o[1]); std::swap(m[0], m[1]); break; }
          case 6: { int x = std::is_void<T>::value ? 0 : sym_i32("y"); if (!m[i].known) asym_kill(); K::set(*o[i], x); m[i].v = x; break; }      // an exception already set wins
          case 7: { unsigned c = 1 + sym_choice("c", 2); o[i]->set_exception(mkex(c)); m[i].ex = c; m[i].known = true; break; }
        }
        look<T>(*o[0], m[0]); look<T>(*o[1], m[1]);
      } }
    CHECK(live == 0, "expected: a value leaked or was destroyed twice"); asym_reach("end");
}
extern "C" void plain() { run<D>(); }
extern "C" void nodef() { run<N>(); }
extern "C" void novalue() { run<void>(); }
extern "C" void moveonly() {
    int x = sym_i32("x"), y = sym_i32("y"); typedef std::unique_ptr<int> U; typedef ba::expected<U> E; unsigned c = sym_choice("c", 4);
    { E a(U(new int(x))); if (c == 0) { E b(std::move(a)); CHECK(b.has_value() && *b.get() == x, "expected: move construction lost the value"); }
      else if (c == 1) { E b(mkex(1)); b = std::move(a); CHECK(b.has_value() && *b.get() == x, "expected: move assignment over an exception lost the value"); }
      else if (c == 2) { a.set_value(U(new int(y))); CHECK(*a.get() == y, "expected: set_value lost the value"); U u = std::move(a.get()); CHECK(*u == y, "expected: value cannot be moved out"); }
      else { E b(mkex(2)); a = std::move(b); bool t = false; try { a.get(); } catch (std::runtime_error const&) { t = true; } CHECK(t && a.has_exception(), "expected: move assignment lost the exception"); } }
    asym_reach("end");
}
