// C++ / pthread / Boost.Thread runtime seen by the symbolically executed code.
#define BOOST_THREAD_PROVIDES_INTERRUPTIONS
#include "asym.h"
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <future>
#include <mutex>
#include <condition_variable>
#include <map>
#include <list>
#include <unordered_map>
#include <system_error>
#include <functional>
#include <chrono>
#include <cstring>
#include <cxxabi.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <sched.h>
#include <unistd.h>
#include <cerrno>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <fcntl.h>
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
// ------------------------------------------------------------------ start
int asym_symclock=0; uint64_t asym_skew=0;
extern "C" void asym_boot(void (**c)(), unsigned long n, void (*entry)()) { for (unsigned long i=0;i<n;i++) if (c[i]) c[i](); entry(); }
extern "C" int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
extern "C" int atexit(void (*)()) { return 0; }
// ------------------------------------------------------------------ exceptions
struct Hdr { const std::type_info* ti; void (*dtor)(void*); void* adjusted; unsigned refs; unsigned pad; long handlers; Hdr* next; Hdr* primary; void* obj; };
static_assert(sizeof(Hdr)==72 || sizeof(Hdr)==64, "");
static const unsigned HS=80;
static thread_local Hdr* g_caught=nullptr; static thread_local int g_uncaught=0;
static inline Hdr* hdrOf(void* obj) { return (Hdr*)((char*)obj-HS); }
static void incref(Hdr* h) { __atomic_add_fetch(&h->refs,1,__ATOMIC_ACQ_REL); }
static void decref(Hdr* h) { if (__atomic_sub_fetch(&h->refs,1,__ATOMIC_ACQ_REL)==0) { if (h->dtor) h->dtor(h->obj); free(h); } }
static void releaseHdr(Hdr* h) { if (h->primary) { Hdr* p=h->primary; free(h); decref(p); } else decref(h); }
extern "C" {
void* __cxa_allocate_exception(size_t z) noexcept { Hdr* h=(Hdr*)malloc(HS+z); memset(h,0,HS); h->obj=(char*)h+HS; return h->obj; }
void __cxa_free_exception(void* o) noexcept { free(hdrOf(o)); }
void* __cxa_init_primary_exception_(void* o, std::type_info* ti, void (*d)(void*)) asm("__cxa_init_primary_exception");
void* __cxa_init_primary_exception_(void* o, std::type_info* ti, void (*d)(void*)) { Hdr* h=hdrOf(o); h->ti=ti; h->dtor=d; h->refs=0; return h; }
void rt_throw(void*, void*, void (*)(void*)) asm("__cxa_throw");
void rt_throw(void* o, void* ti, void (*d)(void*)) { Hdr* h=hdrOf(o); h->ti=(std::type_info*)ti; h->dtor=d; h->refs=1; ++g_uncaught; asym_throw(h); }
void* rt_begin_catch(void*) asm("__cxa_begin_catch");
void* rt_begin_catch(void* p) { Hdr* h=(Hdr*)p; long c=h->handlers; c = c<0 ? -c+1 : c+1; h->handlers=c; --g_uncaught; if (g_caught!=h) { h->next=g_caught; g_caught=h; } return h->adjusted; }
void* rt_get_eptr(void*) asm("__cxa_get_exception_ptr");
void* rt_get_eptr(void* p) { return ((Hdr*)p)->adjusted; }
void rt_end_catch() asm("__cxa_end_catch");
void rt_end_catch() { Hdr* h=g_caught; if (!h) return; long c=h->handlers; if (c<0) { h->handlers=++c; if (c==0) { g_caught=h->next; } } else { h->handlers=--c; if (c==0) { g_caught=h->next; releaseHdr(h); } } }
void rt_rethrow() asm("__cxa_rethrow");
void rt_rethrow() { Hdr* h=g_caught; if (!h) asym_terminate("rethrow without an exception"); h->handlers=-h->handlers; ++g_uncaught; asym_throw(h); }
std::type_info* rt_curtype() asm("__cxa_current_exception_type");
std::type_info* rt_curtype() { return g_caught?(std::type_info*)g_caught->ti:nullptr; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __cxa_guard_acquire_(char* g) asm("__cxa_guard_acquire");
int __cxa_guard_acquire_(char* g) { unsigned* q=(unsigned*)g; for (;;) { unsigned v=__atomic_load_n(q,__ATOMIC_ACQUIRE); if (v&1) return 0; if (v==0) { unsigned z=0; if (__atomic_compare_exchange_n(q,&z,0x100,false,__ATOMIC_ACQ_REL,__ATOMIC_ACQUIRE)) return 1; } else asym_block_while(q,0x100,~0ull); } }
void __cxa_guard_release_(char* g) asm("__cxa_guard_release");
void __cxa_guard_release_(char* g) { __atomic_store_n((unsigned*)g,1,__ATOMIC_RELEASE); }
void __cxa_guard_abort_(char* g) asm("__cxa_guard_abort");
void __cxa_guard_abort_(char* g) { __atomic_store_n((unsigned*)g,0,__ATOMIC_RELEASE); }
void* rt_dyncast(const void* p, const void* src, const void* dst, long) asm("__dynamic_cast");
void* rt_dyncast(const void* p, const void* src, const void* dst, long) { const long* vt=*(const long* const*)p; char* most=(char*)p+vt[-2]; return asym_upcast((const void*)vt[-1],most,dst); }
}
namespace std {
  void terminate() noexcept { asym_terminate("std::terminate called"); }
  int uncaught_exceptions() noexcept { return g_uncaught; } bool uncaught_exception() noexcept { return g_uncaught>0; }
  exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
  bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
  bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
  bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
  bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
  type_info::~type_info() {}
  bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
  const nothrow_t nothrow{};
  // shared message buffer: [len][chars]
  static const char* mkmsg(const char* p, size_t n) { char* b=(char*)malloc(n+9); *(size_t*)b=n; memcpy(b+8,p,n); b[8+n]=0; return b+8; }
  static const char* cpmsg(const char* p) { return p?mkmsg(p,*(const size_t*)(p-8)):nullptr; }
  static void rmmsg(const char* p) { if (p) free((void*)(p-8)); }
  __cow_string::__cow_string() { _M_p=mkmsg("",0); } __cow_string::__cow_string(const string& s) { _M_p=mkmsg(s.data(),s.size()); } __cow_string::__cow_string(const char* s, size_t n) { _M_p=mkmsg(s,n); }
  __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p=cpmsg(o._M_p); } __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this!=&o) { rmmsg(_M_p); _M_p=cpmsg(o._M_p); } return *this; } __cow_string::~__cow_string() { rmmsg(_M_p); }
  __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p=o._M_p; o._M_p=nullptr; } __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto t=_M_p; _M_p=o._M_p; o._M_p=t; return *this; }
#define EXC(X,B) X::X(const string& s):B(s){} X::X(const char* s):B(s){} X::~X() noexcept {}
  logic_error::logic_error(const string& s):_M_msg(s){} logic_error::logic_error(const char* s):_M_msg(s,strlen(s)){} logic_error::logic_error(logic_error&& o) noexcept:_M_msg((__cow_string&&)o._M_msg){} logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg=(__cow_string&&)o._M_msg; return *this; } logic_error::logic_error(const logic_error& o) noexcept:_M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg=o._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
  runtime_error::runtime_error(const string& s):_M_msg(s){} runtime_error::runtime_error(const char* s):_M_msg(s,strlen(s)){} runtime_error::runtime_error(runtime_error&& o) noexcept:_M_msg((__cow_string&&)o._M_msg){} runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg=(__cow_string&&)o._M_msg; return *this; } runtime_error::runtime_error(const runtime_error& o) noexcept:_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg=o._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
  EXC(domain_error,logic_error) EXC(invalid_argument,logic_error) EXC(length_error,logic_error) EXC(out_of_range,logic_error) EXC(range_error,runtime_error) EXC(overflow_error,runtime_error) EXC(underflow_error,runtime_error)
  void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_bad_weak_ptr_() asm("_ZSt20__throw_bad_weak_ptrv"); 
  void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); }
  void __throw_system_error(int e) { throw system_error(error_code(e,generic_category())); } void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }
  void __throw_bad_optional_access_() asm("_ZSt27__throw_bad_optional_accessv");
  void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { asym_fail("libstdc++ assertion failed"); }
  // categories
  namespace _V2 { error_category::~error_category() noexcept {} error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); } bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i)==c; } bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this==c.category() && c.value()==i; } __cow_string error_category::_M_message(int) const { return __cow_string("",0); }
    struct Cat : error_category { const char* n; constexpr Cat(const char* x):n(x){} const char* name() const noexcept override { return n; } string message(int) const override { return string(n); } __cow_string _M_message(int) const override { return __cow_string(n,strlen(n)); } };
    static const Cat gen("generic"), sys("system"); const error_category& generic_category() noexcept { return gen; } const error_category& system_category() noexcept { return sys; } }
  static const _V2::Cat futc("future"), iosc("iostream"); const error_category& future_category() noexcept { return futc; }
  error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
  system_error::~system_error() noexcept {} future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return logic_error::what(); }
  namespace __exception_ptr {
    exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); } void exception_ptr::_M_addref() noexcept { if (_M_exception_object) incref(hdrOf(_M_exception_object)); } void exception_ptr::_M_release() noexcept { if (_M_exception_object) { decref(hdrOf(_M_exception_object)); _M_exception_object=nullptr; } } void* exception_ptr::_M_get() const noexcept { return _M_exception_object; } const type_info* exception_ptr::__cxa_exception_type() const noexcept { return _M_exception_object?hdrOf(_M_exception_object)->ti:nullptr; } }
  static void* curObj() { Hdr* h=g_caught; return h?h->obj:nullptr; }
  struct EP { void* o; };
  exception_ptr current_exception() noexcept { exception_ptr r; void* o=curObj(); if (o) { incref(hdrOf(o)); ((EP*)&r)->o=o; } return r; }
  void rethrow_exception(exception_ptr p) { void* o=((EP*)&p)->o; Hdr* q=hdrOf(o); Hdr* d=(Hdr*)malloc(HS); memset(d,0,HS); d->ti=q->ti; d->primary=q; d->obj=o; d->refs=1; incref(q); p=nullptr; ++g_uncaught; asym_throw(d); }
  // futures
  __future_base::_Result_base::_Result_base() = default; __future_base::_Result_base::~_Result_base() = default;
  bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds ns) { return asym_block_while(a,v,to?(uint64_t)s.count()*1000000000ull+ns.count():~0ull); }
  bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds ns) { return asym_block_while(a,v,to?(uint64_t)s.count()*1000000000ull+ns.count():~0ull); }
  void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
  __thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy() { __once_call(); }
  // time: virtual; with asym_symclock every reading of the system clock is later than the one before by an unknown number of ns
  namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(asym_clock())); } system_clock::time_point system_clock::now() noexcept { if (asym_symclock) asym_skew+=(uint32_t)asym_make("tick",32); return time_point(duration(asym_clock()+asym_skew)); } } }
  // lists, trees, hash policies
  namespace __detail { void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; } void _List_node_base::_M_unhook() noexcept { auto n=_M_next, p=_M_prev; p->_M_next=n; n->_M_prev=p; }
    void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; _M_prev->_M_next=f; auto t=_M_prev; _M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
    void _List_node_base::_M_reverse() noexcept { auto t=this; do { auto n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while (t!=this); }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next!=&x) { if (y._M_next!=&y) { std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if (y._M_next!=&y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[]={1,2,3,5,7,11,13,17,23,29,37,53,79,97,193,389,769,1543,3079,6151,12289,24593}; for (size_t x: p) if (x>=n) { _M_next_resize=(size_t)(x*1.0); return x; } return n|1; }
    pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e+i>_M_next_resize) { size_t m=e+i; if (m>=b) return {true,_M_next_bkt(m+1>b*2?m+1:b*2)}; _M_next_resize=b; return {false,0}; } return {false,0}; } }
  size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h=seed^n; for (size_t i=0;i<n;i++) h=(h^((const unsigned char*)p)[i])*0x100000001b3ull; return h; }
  typedef _Rb_tree_node_base N;
  N* _Rb_tree_increment(N* x) throw() { if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; } else { N* y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; } return x; }
  const N* _Rb_tree_increment(const N* x) throw() { return _Rb_tree_increment(const_cast<N*>(x)); }
  N* _Rb_tree_decrement(N* x) throw() { if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right; else if (x->_M_left) { N* y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; } else { N* y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; } return x; }
  const N* _Rb_tree_decrement(const N* x) throw() { return _Rb_tree_decrement(const_cast<N*>(x)); }
  // unbalanced: every node except the header is black
  void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() { x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black; if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; } else { p->_M_right=x; if (p==h._M_right) h._M_right=x; } }
  N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() { N* y=z; N* x=0; 
    if (!y->_M_left) x=y->_M_right; else if (!y->_M_right) x=y->_M_left; else { y=y->_M_right; while (y->_M_left) y=y->_M_left; x=y->_M_right; }
    auto repl=[&](N* a, N* b) { if (h._M_parent==a) h._M_parent=b; else if (a->_M_parent->_M_left==a) a->_M_parent->_M_left=b; else a->_M_parent->_M_right=b; };
    if (y!=z) { z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if (y!=z->_M_right) { if (x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } repl(z,y); y->_M_parent=z->_M_parent; }
    else { if (x) x->_M_parent=z->_M_parent; repl(z,x); if (h._M_left==z) { if (!z->_M_right) h._M_left=z->_M_parent; else { N* m=x; while (m->_M_left) m=m->_M_left; h._M_left=m; } } if (h._M_right==z) { if (!z->_M_left) h._M_right=z->_M_parent; else { N* m=x; while (m->_M_right) m=m->_M_right; h._M_right=m; } } }
    return z; }
  void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); } void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); } void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(),l.mutex()->native_handle()); } condition_variable::condition_variable() noexcept { pthread_cond_init(native_handle(),0); } condition_variable::~condition_variable() noexcept {}
  template class basic_string<char>;
}
void std::__throw_bad_weak_ptr_() { throw std::bad_weak_ptr(); }
// ------------------------------------------------------------------ libc / pthread
extern "C" {
static thread_local int g_errno; int* __errno_location() noexcept { return &g_errno; }
char __libc_single_threaded=0;
int clock_gettime(clockid_t, struct timespec* t) noexcept { uint64_t c=asym_clock(); t->tv_sec=c/1000000000ull; t->tv_nsec=c%1000000000ull; return 0; }
int gettimeofday(struct timeval* t, void*) noexcept { uint64_t c=asym_clock(); t->tv_sec=c/1000000000ull; t->tv_usec=c%1000000000ull/1000; return 0; }
time_t time(time_t* t) noexcept { time_t c=asym_clock()/1000000000ull; if (t) *t=c; return c; }
struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept { memset(r,0,sizeof *r); r->tm_year=70; r->tm_mon=0; r->tm_mday=1+*t/86400; r->tm_hour=*t%86400/3600; r->tm_min=*t%3600/60; r->tm_sec=*t%60; return r; }
struct tm* localtime_r(const time_t* t, struct tm* r) noexcept { return gmtime_r(t,r); }
int nanosleep(const struct timespec* t, struct timespec*) { asym_sleep(t->tv_sec*1000000000ull+t->tv_nsec); return 0; }
int usleep(useconds_t u) { asym_sleep(u*1000ull); return 0; }
int sched_yield() noexcept { asym_yield(); return 0; }
// the reactor of boost.asio: no descriptor is ever ready and there is no timerfd, so asio checks its timer queues itself whenever it polls
int epoll_create1(int) noexcept { return 5; } int epoll_create(int) noexcept { return 5; } int epoll_ctl(int, int, int, struct epoll_event*) noexcept { return 0; } int epoll_wait(int, struct epoll_event*, int, int) { return 0; }
int eventfd(unsigned, int) noexcept { return 6; } int timerfd_create(clockid_t, int) noexcept { g_errno=EINVAL; return -1; } int timerfd_settime(int, int, const struct itimerspec*, struct itimerspec*) noexcept { return 0; }
int pipe(int* f) noexcept { f[0]=7; f[1]=8; return 0; } ssize_t read(int, void*, size_t) { g_errno=EAGAIN; return -1; } ssize_t write(int, const void*, size_t n) { return n; } int close(int) { return 0; } int fcntl(int, int, ...) { return 0; }
pthread_t pthread_self() noexcept { return (pthread_t)(asym_tid()+1); }
struct TA { void (*f)(void*); void* o; TA* n; }; static thread_local TA* g_tatexit=nullptr;
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) noexcept { TA* t=(TA*)malloc(sizeof(TA)); t->f=f; t->o=o; t->n=g_tatexit; g_tatexit=t; return 0; }
struct Start { void* (*f)(void*); void* a; };
static void* startThread(void* p) { Start s=*(Start*)p; free(p); s.f(s.a); while (g_tatexit) { TA* t=g_tatexit; g_tatexit=t->n; t->f(t->o); free(t); } return 0; }
int pthread_create(pthread_t* h, const pthread_attr_t*, void* (*f)(void*), void* a) noexcept { Start* s=(Start*)malloc(sizeof(Start)); s->f=f; s->a=a; *h=(pthread_t)(asym_spawn(startThread,s)+1); return 0; }
int pthread_join(pthread_t h, void** r) { asym_join((int)h-1); if (r) *r=0; return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { unsigned* u=(unsigned*)o; for (;;) { unsigned v=__atomic_load_n(u,__ATOMIC_ACQUIRE); if (v==2) return 0; if (v==0) { unsigned z=0; if (__atomic_compare_exchange_n(u,&z,1,false,__ATOMIC_ACQ_REL,__ATOMIC_ACQUIRE)) { try { f(); } catch (...) { __atomic_store_n(u,0,__ATOMIC_RELEASE); throw; } __atomic_store_n(u,2,__ATOMIC_RELEASE); return 0; } } else asym_block_while(u,1,~0ull); } }
struct Key { void (*d)(void*); }; static int g_keys=0; static thread_local void* g_spec[32];
int pthread_key_create(pthread_key_t* k, void (*)(void*)) noexcept { *k=g_keys++; return 0; } int pthread_key_delete(pthread_key_t) noexcept { return 0; } void* pthread_getspecific(pthread_key_t k) noexcept { return g_spec[k]; } int pthread_setspecific(pthread_key_t k, const void* v) noexcept { g_spec[k]=(void*)v; return 0; }
}
namespace boost { namespace system { class error_code; } namespace chrono { struct sc0; } }
extern "C" { uint64_t _ZN5boost6chrono12steady_clock3nowEv() noexcept { return asym_clock(); } uint64_t _ZN5boost6chrono12system_clock3nowEv() noexcept { return asym_clock(); }
ssize_t getrandom(void* p, size_t n, unsigned) { static unsigned long k=0; ++k; memset(p,0,n); memcpy(p,&k,n<8?n:8); return n; }
long sysconf(int) noexcept { return 4096; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a==*b) { ++a; ++b; } return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { while (n && *a && *a==*b) { ++a; ++b; --n; } return n?(unsigned char)*a-(unsigned char)*b:0; }
int snprintf(char* b, size_t n, const char*, ...) noexcept { if (n) *b=0; return 0; } int vsnprintf(char* b, size_t n, const char*, va_list) noexcept { if (n) *b=0; return 0; }
int puts(const char*) { return 0; } int printf(const char*, ...) { return 0; }
char* strerror_r(int, char* b, size_t n) noexcept { if (n) *b=0; return b; } char* strerror(int) noexcept { static char e[2]; return e; }
}
// ------------------------------------------------------------------ Boost.Thread (as libs/thread/src/pthread/thread.cpp)
namespace boost {
  namespace detail {
    static thread_local thread_data_base* g_cur=nullptr;
    thread_data_base::~thread_data_base() { for (auto& p: notify) { p.second->unlock(); p.first->notify_all(); } }
    thread_data_base* get_current_thread_data() { return g_cur; }
    struct external_thread_data : thread_data_base { void run() override {} void notify_all_at_thread_exit(condition_variable*, mutex*) override {} };
    static thread_data_base* make_external() { thread_data_base* d=new external_thread_data(); d->self.reset(d); g_cur=d; return d; }
    static thread_data_base* get_or_make() { return g_cur?g_cur:make_external(); }
    struct thread_exit_callback_node { thread_exit_function_base* func; thread_exit_callback_node* next; };
    static void cleanup(thread_data_ptr const& ti) { while (!ti->tss_data.empty()||ti->thread_exit_callbacks) { while (ti->thread_exit_callbacks) { auto* n=ti->thread_exit_callbacks; ti->thread_exit_callbacks=n->next; if (n->func) { (*n->func)(); delete n->func; } delete n; } while (!ti->tss_data.empty()) { auto it=ti->tss_data.begin(); if (it->second.func && it->second.value) (*it->second.caller)(it->second.func,it->second.value); ti->tss_data.erase(it); } } ti->self.reset(); }
    static void* proxy(void* param) { thread_data_ptr ti=static_cast<thread_data_base*>(param)->self; ti->self.reset(); g_cur=ti.get(); try { ti->run(); } catch (thread_interrupted const&) {} cleanup(ti); g_cur=nullptr; { lock_guard<mutex> l(ti->data_mutex); ti->done=true; ti->done_condition.notify_all(); } return 0; }
    static tss_data_node* find_tss(void const* k) { auto* d=g_cur; if (d) { auto it=d->tss_data.find(k); if (it!=d->tss_data.end()) return &it->second; } return nullptr; }
    void* get_tss_data(void const* k) { auto* n=find_tss(k); return n?n->value:nullptr; }
    void set_tss_data(void const* k, tss_data_node::cleanup_caller_t cc, tss_data_node::cleanup_func_t f, void* v, bool cl) { if (auto* n=find_tss(k)) { if (cl && n->func && n->value) (*n->caller)(n->func,n->value); if (f||v) { n->caller=cc; n->func=f; n->value=v; } else g_cur->tss_data.erase(k); } else if (f||v) get_or_make()->tss_data.insert(std::make_pair(k,tss_data_node(cc,f,v))); }
    void add_thread_exit_function(thread_exit_function_base* f) { auto* d=get_or_make(); auto* n=new thread_exit_callback_node{f,d->thread_exit_callbacks}; d->thread_exit_callbacks=n; }
  }
  thread::thread() BOOST_NOEXCEPT {}
  bool thread::start_thread_noexcept() { thread_info->self=thread_info; if (pthread_create(&thread_info->thread_handle,0,&detail::proxy,thread_info.get())) { thread_info->self.reset(); return false; } return true; }
  bool thread::start_thread_noexcept(const attributes&) { return start_thread_noexcept(); }
  detail::thread_data_ptr thread::get_thread_info BOOST_PREVENT_MACRO_SUBSTITUTION () const { return thread_info; }
  bool thread::join_noexcept() { detail::thread_data_ptr const l=(get_thread_info)(); if (!l) return false; bool dj=false; { unique_lock<mutex> k(l->data_mutex); while (!l->done) l->done_condition.wait(k); dj=!l->join_started; if (dj) l->join_started=true; else while (!l->joined) l->done_condition.wait(k); } if (dj) { void* r; pthread_join(l->thread_handle,&r); lock_guard<mutex> k(l->data_mutex); l->joined=true; l->done_condition.notify_all(); } if (thread_info==l) thread_info.reset(); return true; }
  bool thread::joinable() const BOOST_NOEXCEPT { return (get_thread_info)()?true:false; }
  void thread::detach() { detail::thread_data_ptr l; thread_info.swap(l); if (l) { lock_guard<mutex> k(l->data_mutex); if (!l->join_started) { l->join_started=true; l->joined=true; } } }
  void thread::interrupt() { detail::thread_data_ptr const l=(get_thread_info)(); if (l) { lock_guard<mutex> k(l->data_mutex); l->interrupt_requested=true; if (l->current_cond) { pthread_mutex_lock(l->cond_mutex); pthread_cond_broadcast(l->current_cond); pthread_mutex_unlock(l->cond_mutex); } } }
  bool thread::interruption_requested() const BOOST_NOEXCEPT { detail::thread_data_ptr const l=(get_thread_info)(); if (l) { lock_guard<mutex> k(l->data_mutex); return l->interrupt_requested; } return false; }
  unsigned thread::hardware_concurrency() BOOST_NOEXCEPT { return 2; } unsigned thread::physical_concurrency() BOOST_NOEXCEPT { return 2; }
  thread::native_handle_type thread::native_handle() { detail::thread_data_ptr const l=(get_thread_info)(); return l?l->thread_handle:pthread_t(); }
  namespace this_thread {
    void interruption_point() { auto* d=detail::g_cur; if (d && d->interrupt_enabled) { lock_guard<mutex> l(d->data_mutex); if (d->interrupt_requested) { d->interrupt_requested=false; throw thread_interrupted(); } } }
    bool interruption_enabled() BOOST_NOEXCEPT { auto* d=detail::g_cur; return d && d->interrupt_enabled; }
    bool interruption_requested() BOOST_NOEXCEPT { auto* d=detail::g_cur; if (!d) return false; lock_guard<mutex> l(d->data_mutex); return d->interrupt_requested; }
    disable_interruption::disable_interruption() BOOST_NOEXCEPT : interruption_was_enabled(interruption_enabled()) { if (interruption_was_enabled) detail::g_cur->interrupt_enabled=false; }
    disable_interruption::~disable_interruption() BOOST_NOEXCEPT { if (detail::g_cur) detail::g_cur->interrupt_enabled=interruption_was_enabled; }
    restore_interruption::restore_interruption(disable_interruption& d) BOOST_NOEXCEPT { if (d.interruption_was_enabled) detail::g_cur->interrupt_enabled=true; }
    restore_interruption::~restore_interruption() BOOST_NOEXCEPT { if (detail::g_cur) detail::g_cur->interrupt_enabled=false; }
    void yield() BOOST_NOEXCEPT { asym_yield(); }
    namespace no_interruption_point { namespace hidden { void sleep_for_internal(const detail::platform_duration& d) { asym_sleep(d.getNs()); } } }
  }
}
