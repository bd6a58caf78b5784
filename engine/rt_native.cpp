// Native side of the harness interface: replays one assignment against the really compiled library.
#include "asym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <mutex>
#include <vector>
#include <thread>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <dlfcn.h>
static std::map<std::string,uint64_t> g_vars; static std::map<std::string,int> g_cnt; static std::mutex g_m; static std::vector<std::string> g_log;
static void finish(int rc) { std::lock_guard<std::mutex> l(g_m); for (auto& s: g_log) puts(s.c_str()); fflush(stdout); _exit(rc); }
extern "C" {
uint64_t asym_make(const char* n, uint64_t bits) { std::lock_guard<std::mutex> l(g_m); std::string k=std::string(n)+"#"+std::to_string(g_cnt[n]++); auto it=g_vars.find(k); uint64_t v=it==g_vars.end()?0:it->second; return bits>=64?v:v&((1ull<<bits)-1); }
void asym_assume(int c) { if (!c) { { std::lock_guard<std::mutex> l(g_m); g_log.push_back("ASSUME-FAILED"); } finish(4); } }
void asym_assert(int c, const char* m) { if (!c) { { std::lock_guard<std::mutex> l(g_m); g_log.push_back(std::string("VIOLATED ")+m); } finish(1); } }
void asym_fail(const char* m) { asym_assert(0,m); abort(); }
void asym_kill() { finish(4); abort(); }
uint64_t asym_conc(uint64_t v) { return v; } int asym_feasible(int c) { return c; }
void asym_reach(const char* n) { std::lock_guard<std::mutex> l(g_m); g_log.push_back(std::string("REACH ")+n); }
void asym_out(const char* n, uint64_t v) { std::lock_guard<std::mutex> l(g_m); g_log.push_back(std::string("OUT ")+n+" "+std::to_string(v)); }
void asym_print(const char* n, uint64_t v) { fprintf(stderr,"%s %lld\n",n,(long long)v); }
void asym_window(int) {} int asym_symbolic_engine() { return 0; }
int asym_tid() { static std::map<std::thread::id,int> m; std::lock_guard<std::mutex> l(g_m); auto r=m.emplace(std::this_thread::get_id(),(int)m.size()); return r.first->second; }
int asym_nthreads() { return 1; } uint64_t asym_live_heap() { return 0; }
int asym_symclock=0; uint64_t asym_skew=0;
uint64_t asym_clock() { return std::chrono::steady_clock::now().time_since_epoch().count(); } void asym_advance(uint64_t ns) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
void asym_unsupported(const char*) { finish(5); abort(); }
void asym_yield() { std::this_thread::yield(); } void asym_sleep(uint64_t ns) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
}
int main(int argc, char** argv) { // entry, replay file
  std::ifstream in(argv[2]); std::string l; while (std::getline(in,l)) { if (l=="---") break; std::istringstream is(l); std::string k; is>>k; if (k=="var") { size_t e=l.rfind(' '); g_vars[l.substr(4,e-4)]=strtoull(l.c_str()+e,0,10); } }
  auto f=(void(*)())dlsym(RTLD_DEFAULT,argv[1]); if (!f) { puts("NO-ENTRY"); _exit(5); }
  std::set_terminate([]{ { std::lock_guard<std::mutex> l(g_m); g_log.push_back("VIOLATED terminate"); } finish(1); });
  alarm(20); f(); { std::lock_guard<std::mutex> l(g_m); g_log.push_back("DONE"); } finish(0); }
