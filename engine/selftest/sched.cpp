//@ s1 | s1 | -
//@ s2 | s2 | -
//@ s3 | s3 | -
//@ s4 | s4 | -
//@ s5 | s5 | -
//@ s6 | s6 | -
//@ s7 | s7 | -
// Small thread programs whose set of outcomes under the reduction is compared with full enumeration (selftest.py).
#include "asym.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <atomic>
#include <memory>
using boost::thread;
static void out(const char* n, long v) { asym_out(n, v); }
extern "C" void s1() { // store buffering on sequentially consistent atomics, plus a third thread
    static std::atomic<int> x{0}, y{0}; static int a, b, c; asym_window(1);
    thread t1([] { x = 1; a = y; }), t2([] { y = 1; b = x; }); c = x + 2 * y; t1.join(); t2.join(); asym_window(0); out("a", a); out("b", b); out("c", c); asym_reach("end"); }
extern "C" void s2() { // lock order decides the result
    static boost::mutex m; static int v = 1; asym_window(1);
    thread t1([] { { boost::mutex::scoped_lock l(m); v = v * 2; } { boost::mutex::scoped_lock l(m); v = v + 1; } }), t2([] { boost::mutex::scoped_lock l(m); v = v * 3; });
    { boost::mutex::scoped_lock l(m); v = v + 5; } t1.join(); t2.join(); asym_window(0); out("v", v); asym_reach("end"); }
extern "C" void s3() { // condition variable hand-over
    static boost::mutex m; static boost::condition_variable cv; static int v = 0, r1, r2; asym_window(1);
    thread t1([] { boost::mutex::scoped_lock l(m); while (!v) cv.wait(l); r1 = v; v++; cv.notify_one(); }), t2([] { boost::mutex::scoped_lock l(m); while (!v) cv.wait(l); r2 = v; v++; cv.notify_one(); });
    { boost::mutex::scoped_lock l(m); v = 1; cv.notify_one(); } t1.join(); t2.join(); asym_window(0); out("r1", r1); out("r2", r2); asym_reach("end"); }
extern "C" void s4() { // read-modify-write in two threads, first operations conflict
    static std::atomic<int> x{0}; static int a, b; asym_window(1);
    thread t1([] { int q = x; x = q + 1; a = x; }), t2([] { b = x.fetch_add(10); x = x + 100; }); x = x + 1000; t1.join(); t2.join(); asym_window(0); out("a", a); out("b", b); out("x", x); asym_reach("end"); }
extern "C" void s5() { // weak_ptr lock against the last release (needs --rc)
    static std::weak_ptr<int> w; static int got; auto p = std::make_shared<int>(7); w = p; asym_window(1);
    thread t1([] { auto q = w.lock(); got = q ? *q : -1; }); p.reset(); t1.join(); asym_window(0); out("got", got); asym_reach("end"); }
extern "C" void s6() { // yield loop
    static std::atomic<int> f{0}, g{0}; static int a; asym_window(1);
    thread t1([] { while (!f) boost::this_thread::yield(); g = 2; }), t2([] { g = 3; f = 1; g = 4; }); t1.join(); a = g; t2.join(); asym_window(0); out("a", a); out("g", g); asym_reach("end"); }
extern "C" void s7() { // nested creation
    static std::atomic<int> x{0}; static int a, b; asym_window(1);
    thread t1([] { x = x + 1; thread t3([] { b = x; x = x * 3; }); x = x + 5; t3.join(); a = x; }); x = x + 10; t1.join(); asym_window(0); out("a", a); out("b", b); out("x", x); asym_reach("end"); }
