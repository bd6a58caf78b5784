// Interface between harnesses and the symbolic engine (engine/) or the native replay runtime (rt_native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
extern "C" {
uint64_t asym_make(const char* name, uint64_t bits);      // fresh symbolic value
void asym_assume(int c);
void asym_assert(int c, const char* msg);
[[noreturn]] void asym_fail(const char* msg);
[[noreturn]] void asym_kill();                              // prune this path (outside the bounds)
uint64_t asym_conc(uint64_t v);                            // enumerate all feasible values of v
int asym_feasible(int c);
void asym_reach(const char* name);                         // vacuity witness: counted on completed paths
void asym_out(const char* name, uint64_t v);               // observable output, compared with the native run
void asym_print(const char* name, uint64_t v);
void asym_window(int on);                                  // explore interleavings from here / stop
int asym_symbolic_engine();
int asym_tid(); int asym_nthreads();
uint64_t asym_live_heap();
uint64_t asym_clock(); void asym_advance(uint64_t ns);
extern int asym_symclock; extern uint64_t asym_skew;          // see rt.cpp
[[noreturn]] void asym_unsupported(const char*);
int asym_spawn(void*(*)(void*),void*); void asym_join(int); void asym_yield(); void asym_sleep(uint64_t ns);
int asym_block_while(const void* a, uint32_t v, uint64_t deadline);
[[noreturn]] void asym_throw(void*); void* asym_upcast(const void* ti, void* obj, const void* dst); [[noreturn]] void asym_terminate(const char*);
}
inline int sym_int(const char* n, int lo, int hi) { int v=(int)asym_make(n,32); asym_assume((v>=lo)&(v<=hi)); return v; }
inline unsigned sym_u(const char* n, unsigned lo, unsigned hi) { unsigned v=(unsigned)asym_make(n,32); asym_assume((v>=lo)&(v<=hi)); return v; }
inline int sym_i32(const char* n) { return (int)asym_make(n,32); }
inline uint8_t sym_u8(const char* n) { return (uint8_t)asym_make(n,8); }
inline bool sym_bool(const char* n) { return asym_make(n,1)!=0; }
// one of 0..n-1, every value explored
inline unsigned sym_choice(const char* n, unsigned k) { unsigned v=(unsigned)asym_make(n,16); asym_assume(v<k); return (unsigned)asym_conc(v); }
inline bool sym_flip(const char* n) { return sym_choice(n,2)!=0; }
#define CHECK(c,msg) asym_assert(!!(c),msg)
