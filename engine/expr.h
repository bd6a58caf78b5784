// Hash-consed bit-vector expressions, their evaluation under a model, and the
// translation to Z3.  Part of asym, the symbolic executor of /verif.
#pragma once
#include <map>
#include <functional>
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <cassert>
#include <chrono>
#include <z3.h>

typedef unsigned __int128 u128;
enum EK : uint8_t { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };

struct Expr {
  EK k; uint16_t w; uint32_t id; u128 v;            // v: constant / var index / extract lo
  const Expr *a, *b, *c;
  mutable uint32_t stamp = 0; mutable u128 ev = 0;  // evaluation memo
  mutable Z3_ast z = nullptr; mutable Z3_ast zb = nullptr;
  mutable std::shared_ptr<std::vector<uint32_t>> vs;  // variables
};
inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sx(u128 v, unsigned w) { if (w >= 128) return (__int128)v; u128 s = (u128)1 << (w-1); v &= maskw(w); return (__int128)((v ^ s) - s); }

struct VarInfo { std::string name; unsigned w; };
struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; } };
typedef std::shared_ptr<const Model> ModelP;

struct EB {                                         // expression builder (single instance)
  struct H { size_t operator()(const Expr* e) const { size_t h = e->k * 0x9E3779B97F4A7C15ull + e->w;
      h = (h ^ (size_t)(uint64_t)e->v) * 0xff51afd7ed558ccdull; h ^= (size_t)(uint64_t)(e->v >> 64);
      auto m=[&](const Expr* x){ h = (h ^ (x ? x->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; };
      m(e->a); m(e->b); m(e->c); return h; } };
  struct Q { bool operator()(const Expr* x, const Expr* y) const {
      return x->k==y->k && x->w==y->w && x->v==y->v && x->a==y->a && x->b==y->b && x->c==y->c; } };
  std::unordered_set<const Expr*, H, Q> tab;
  std::vector<Expr*> pool; uint32_t next = 1; size_t used = 0; uint32_t stamp = 0;
  std::vector<VarInfo> vars;
  const Expr* intern(EK k, unsigned w, u128 v, const Expr* a=nullptr, const Expr* b=nullptr, const Expr* c=nullptr) {
    Expr t; t.k=k; t.w=w; t.v=v; t.a=a; t.b=b; t.c=c; t.id=0;
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    if (used == 0) { pool.push_back(new Expr[4096]); used = 4096; }
    Expr* e = &pool.back()[4096 - used]; --used;
    e->k=k; e->w=w; e->v=v; e->a=a; e->b=b; e->c=c; e->id=next++;
    tab.insert(e); return e;
  }
  const Expr* cst(u128 v, unsigned w) { return intern(E_CONST, w, v & maskw(w)); }
  const Expr* var(const std::string& n, unsigned w) { vars.push_back({n,w}); return intern(E_VAR, w, vars.size()-1); }
  static bool isC(const Expr* e) { return e->k == E_CONST; }
  const Expr* T() { return cst(1,1); } const Expr* F() { return cst(0,1); }
  const Expr* Not(const Expr* e) { return bin(E_XOR, e, T()); }

  static u128 fold(EK k, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    switch (k) {
      case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
      case E_UDIV: return b ? a/b : m; case E_UREM: return b ? a%b : a;
      case E_SDIV: { __int128 x=sx(a,w), y=sx(b,w); if (!y) return x<0?1:m; if (y==-1) return ((u128)0-a)&m; return (u128)(x/y)&m; }
      case E_SREM: { __int128 x=sx(a,w), y=sx(b,w); if (!y) return a; if (y==-1) return 0; return (u128)(x%y)&m; }
      case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
      case E_SHL: return b>=w?0:(a<<(unsigned)b)&m; case E_LSHR: return b>=w?0:(a>>(unsigned)b);
      case E_ASHR: { __int128 x=sx(a,w); return (u128)(x >> (b>=w?w-1:(unsigned)b))&m; }
      case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
      case E_SLT: return sx(a,w)<sx(b,w); case E_SLE: return sx(a,w)<=sx(b,w);
      default: abort();
    }
  }
  static bool cmp(EK k) { return k>=E_EQ && k<=E_SLE; }
  static bool comm(EK k) { return k==E_ADD||k==E_MUL||k==E_AND||k==E_OR||k==E_XOR||k==E_EQ; }
  bool iteLeaves(const Expr* e, int d) { if (isC(e)) return true; return d>0 && e->k==E_ITE && iteLeaves(e->b,d-1) && iteLeaves(e->c,d-1); }

  // canonical linear sums: sorted terms with coefficients, so that reassociated sums are identical
  typedef std::vector<std::pair<const Expr*,u128>> Lin;
  static void linAdd(Lin& l, const Expr* e, u128 c, unsigned w) { for (auto& t: l) if (t.first==e) { t.second=(t.second+c)&maskw(w); return; } l.push_back({e,c&maskw(w)}); }
  static bool lin(const Expr* e, u128 c, Lin& l, u128& k, unsigned w) { if (l.size()>48) return false;
    switch (e->k) { case E_CONST: k=(k+c*e->v)&maskw(w); return true; case E_ADD: return lin(e->a,c,l,k,w)&&lin(e->b,c,l,k,w); case E_SUB: return lin(e->a,c,l,k,w)&&lin(e->b,(u128)0-c,l,k,w);
      case E_MUL: if (isC(e->b)) return lin(e->a,c*e->b->v,l,k,w); break; case E_SHL: if (isC(e->b)&&e->b->v<w) return lin(e->a,c<<(unsigned)e->b->v,l,k,w); break; default: break; }
    linAdd(l,e,c,w); return true; }
  const Expr* unlin(Lin& l, u128 k, unsigned w) { std::sort(l.begin(),l.end(),[](auto&x,auto&y){return x.first->id<y.first->id;}); const Expr *pos=nullptr,*neg=nullptr; u128 m=maskw(w); k&=m;
    for (auto& t: l) { if (!t.second) continue; bool ng=(t.second>>(w-1))&1 && w>1; u128 c=ng?((u128)0-t.second)&m:t.second; const Expr* x=t.first; if (c!=1) { if ((c&(c-1))==0) { unsigned sh=0; while (!((c>>sh)&1)) ++sh; x=intern(E_SHL,w,0,x,cst(sh,w)); } else x=intern(E_MUL,w,0,x,cst(c,w)); } const Expr*& d=ng?neg:pos; d=d?intern(E_ADD,w,0,d,x):x; }
    if (!pos&&!neg) return cst(k,w); if (!pos) pos=intern(E_SUB,w,0,cst(k,w),neg), neg=nullptr, k=0; if (neg) pos=intern(E_SUB,w,0,pos,neg); if (k) pos=intern(E_ADD,w,0,pos,cst(k,w)); return pos; }
  const Expr* bin(EK k, const Expr* a, const Expr* b) {
    if ((k==E_ADD||k==E_SUB||(k==E_MUL&&(isC(a)||isC(b)))) && !(isC(a)&&isC(b)) && a->w>1) {
      if (k==E_MUL && isC(a)) std::swap(a,b);
      // keep ite-of-constant trees as such (addresses)
      bool it=(isC(b)&&a->k==E_ITE&&(isC(a->b)||isC(a->c))&&iteLeaves(a,12))||(isC(a)&&b->k==E_ITE&&(isC(b->b)||isC(b->c))&&iteLeaves(b,12))||(a->k==E_ITE&&b->k==E_ITE&&iteLeaves(a,3)&&iteLeaves(b,3));
      if (!it) { Lin l; u128 c=0; bool ok; if (k==E_MUL) ok=lin(a,b->v,l,c,a->w); else ok=lin(a,1,l,c,a->w)&&lin(b,k==E_ADD?1:(u128)0-1,l,c,a->w); if (ok) return unlin(l,c,a->w); } }
    unsigned w = a->w, rw = cmp(k) ? 1 : w;
    if (isC(a) && isC(b)) return cst(fold(k,a->v,b->v,w), rw);
    if (comm(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a,b);   // constants right
    u128 m = maskw(w);
    if (isC(b)) {
      u128 c = b->v;
      switch (k) {
        case E_ADD: if (!c) return a; if (a->k==E_ADD && isC(a->b)) return bin(E_ADD,a->a,cst(a->b->v+c,w)); break;
        case E_SUB: return bin(E_ADD,a,cst((u128)0-c,w));
        case E_MUL: if (!c) return b; if (c==1) return a; if ((c&(c-1))==0) { unsigned s=0; while (!((c>>s)&1)) ++s; return bin(E_SHL,a,cst(s,w)); } break;
        case E_UDIV: case E_SDIV: if (c==1) return a;
          if (k==E_UDIV && c && (c&(c-1))==0) { unsigned s=0; while (!((c>>s)&1)) ++s; return bin(E_LSHR,a,cst(s,w)); } break;
        case E_UREM: if (c==1) return cst(0,w); if (c && (c&(c-1))==0) return bin(E_AND,a,cst(c-1,w)); break;
        case E_AND: if (!c) return b; if (c==m) return a; if (a->k==E_AND && isC(a->b)) return bin(E_AND,a->a,cst(a->b->v&c,w));
          if (a->k==E_ZEXT && (c & maskw(a->a->w)) == maskw(a->a->w)) return a;
          break;
        case E_OR: if (!c) return a; if (c==m) return b; break;
        case E_XOR: if (!c) return a; if (a->k==E_XOR && isC(a->b)) return bin(E_XOR,a->a,cst(a->b->v^c,w));
          if (w==1) { // negate comparisons
            if (a->k==E_ULT) return bin(E_ULE,a->b,a->a); if (a->k==E_ULE) return bin(E_ULT,a->b,a->a);
            if (a->k==E_SLT) return bin(E_SLE,a->b,a->a); if (a->k==E_SLE) return bin(E_SLT,a->b,a->a);
            if (a->k==E_ITE && (isC(a->b)||isC(a->c))) return ite(a->a, Not(a->b), Not(a->c));
          } break;
        case E_SHL: case E_LSHR: case E_ASHR: if (!c) return a; if (c>=w && k!=E_ASHR) return cst(0,w); break;
        case E_EQ:
          if (w==1) return c ? a : Not(a);
          if (a->k==E_ZEXT) { if (c >> a->a->w) return F(); return bin(E_EQ,a->a,cst(c,a->a->w)); }
          if (a->k==E_SEXT) { u128 lo=c&maskw(a->a->w); if (((u128)sx(lo,a->a->w)&m)!=c) return F(); return bin(E_EQ,a->a,cst(lo,a->a->w)); }
          if (a->k==E_ADD && isC(a->b)) return bin(E_EQ,a->a,cst(c-a->b->v,w));
          if (a->k==E_XOR && isC(a->b)) return bin(E_EQ,a->a,cst(c^a->b->v,w));
          if (a->k==E_CONCAT) return bin(E_AND, bin(E_EQ,a->a,cst(c>>a->b->w,a->a->w)), bin(E_EQ,a->b,cst(c,a->b->w)));
          break;
        case E_ULT: if (!c) return F(); if (c==1) return bin(E_EQ,a,cst(0,w));
          if (a->k==E_ZEXT) { if (c > maskw(a->a->w)) return T(); return bin(E_ULT,a->a,cst(c,a->a->w)); } break;
        case E_ULE: if (c==m) return T(); if (!c) return bin(E_EQ,a,b);
          if (a->k==E_ZEXT) { if (c >= maskw(a->a->w)) return T(); return bin(E_ULE,a->a,cst(c,a->a->w)); } break;
        case E_SLT: case E_SLE:
          if (a->k==E_ZEXT) { if (sx(c,w)<0) return F(); if ((c > maskw(a->a->w))) return T(); return bin(k==E_SLT?E_ULT:E_ULE,a->a,cst(c,a->a->w)); }
          if (a->k==E_SEXT) { u128 lo=c&maskw(a->a->w); if (((u128)sx(lo,a->a->w)&m)==c) return bin(k,a->a,cst(lo,a->a->w)); } break;
        default: break;
      }
      if (a->k==E_ITE && (isC(a->b)||isC(a->c)) && (iteLeaves(a,12))) return ite(a->a, bin(k,a->b,b), bin(k,a->c,b));
    } else if (isC(a)) {
      u128 c = a->v;
      switch (k) {
        case E_SHL: case E_LSHR: case E_UDIV: case E_UREM: if (!c && k!=E_UDIV && k!=E_UREM) return a; break;
        case E_ULT: if (c==m) return F(); if (b->k==E_ZEXT) { if (c >= maskw(b->a->w)) return F(); return bin(E_ULT,cst(c,b->a->w),b->a); } break;
        case E_ULE: if (!c) return T(); if (b->k==E_ZEXT) { if (c > maskw(b->a->w)) return F(); return bin(E_ULE,cst(c,b->a->w),b->a); } break;
        case E_SLT: case E_SLE:
          if (b->k==E_ZEXT) { if (sx(c,w)<0) return T(); if (c > maskw(b->a->w)) return F(); return bin(k==E_SLT?E_ULT:E_ULE,cst(c,b->a->w),b->a); }
          if (b->k==E_SEXT) { u128 lo=c&maskw(b->a->w); if (((u128)sx(lo,b->a->w)&m)==c) return bin(k,cst(lo,b->a->w),b->a); } break;
        default: break;
      }
      if (b->k==E_ITE && iteLeaves(b,12)) return ite(b->a, bin(k,a,b->b), bin(k,a,b->c));
    } else {
      if (a==b) switch (k) {
        case E_SUB: case E_XOR: return cst(0,w); case E_AND: case E_OR: return a;
        case E_EQ: case E_ULE: case E_SLE: return T(); case E_ULT: case E_SLT: return F(); default: break; }
      if (k==E_ADD) { if (b->k==E_ADD && isC(b->b)) return bin(E_ADD,bin(E_ADD,a,b->a),b->b); if (a->k==E_ADD && isC(a->b)) return bin(E_ADD,bin(E_ADD,a->a,b),a->b); }
      if (k==E_SUB) { // (x+c1)-(y+c2)
        u128 c=0; const Expr *x=a,*y=b; if (a->k==E_ADD&&isC(a->b)) { c+=a->b->v; x=a->a; } if (b->k==E_ADD&&isC(b->b)) { c-=b->b->v; y=b->a; }
        if (x==y) return cst(c,w);
        if (x!=a||y!=b) return bin(E_ADD,bin(E_SUB,x,y),cst(c,w)); }
      if ((k==E_EQ||k==E_ULT||k==E_ULE||k==E_SLT||k==E_SLE) && a->k==b->k && (a->k==E_ZEXT||a->k==E_SEXT) && a->a->w==b->a->w) {
        EK kk=k; if (a->k==E_ZEXT) { if (k==E_SLT) kk=E_ULT; if (k==E_SLE) kk=E_ULE; }
        return bin(kk,a->a,b->a); }
      if (k==E_EQ && w>1 && (a->k==E_ADD||a->k==E_SUB||a->k==E_MUL||a->k==E_SHL||b->k==E_ADD||b->k==E_SUB||b->k==E_MUL||b->k==E_SHL)) { Lin l; u128 c=0; if (lin(a,1,l,c,w)&&lin(b,(u128)0-1,l,c,w)) { Lin l2; for (auto& t: l) if (t.second) l2.push_back(t); if (l2.empty()) return c?F():T();
          Lin p,n; for (auto& t: l2) if ((t.second>>(w-1))&1) n.push_back({t.first,((u128)0-t.second)&maskw(w)}); else p.push_back(t);
          const Expr* x=unlin(p,0,w); const Expr* y=unlin(n,(u128)0-c,w); if (isC(x)) std::swap(x,y); if (!(x==a&&y==b)&&!(x==b&&y==a)) { if (isC(x)&&isC(y)) return cst(x->v==y->v,1); if (x->id>y->id&&!isC(y)) std::swap(x,y); if (isC(y)&&y->v==0&&x->k!=E_ADD&&x->k!=E_SUB) return bin(E_EQ,x,y); return intern(E_EQ,1,0,x,y); } } }
      if ((k==E_AND||k==E_OR||k==E_XOR) && a->k==E_ZEXT && b->k==E_ZEXT && a->a->w==b->a->w) return zext(bin(k,a->a,b->a),w);
      if (w==1 && (k==E_AND||k==E_OR)) {
        if (Not(a)==b) return k==E_AND ? F() : T();
      }
      // both small ite-constant trees: distribute over the first
      if (a->k==E_ITE && b->k==E_ITE && iteLeaves(a,3) && iteLeaves(b,3)) return ite(a->a, bin(k,a->b,b), bin(k,a->c,b));
    }
    if (k==E_MUL||k==E_ADD||k==E_AND||k==E_OR||k==E_XOR||k==E_EQ) if (!isC(b) && a->id > b->id) std::swap(a,b);
    return intern(k, rw, 0, a, b);
  }
  const Expr* ite(const Expr* c, const Expr* a, const Expr* b) {
    if (isC(c)) return c->v ? a : b;
    if (a==b) return a;
    if (c->k==E_XOR && isC(c->b)) return ite(c->a,b,a);
    if (a->w==1) {
      if (isC(a)) return a->v ? bin(E_OR,c,b) : bin(E_AND,Not(c),b);
      if (isC(b)) return b->v ? bin(E_OR,Not(c),a) : bin(E_AND,c,a);
    }
    if (a->k==E_ITE && a->a==c) a=a->b;
    if (b->k==E_ITE && b->a==c) b=b->c;
    if (a==b) return a;
    return intern(E_ITE,a->w,0,c,a,b);
  }
  const Expr* zext(const Expr* a, unsigned w) {
    if (a->w==w) return a; if (isC(a)) return cst(a->v,w);
    if (a->k==E_ZEXT) return zext(a->a,w);
    if (a->k==E_ITE && iteLeaves(a,12)) return ite(a->a,zext(a->b,w),zext(a->c,w));
    return intern(E_ZEXT,w,0,a); }
  const Expr* sext(const Expr* a, unsigned w) {
    if (a->w==w) return a; if (isC(a)) return cst((u128)sx(a->v,a->w),w);
    if (a->k==E_SEXT) return sext(a->a,w); if (a->k==E_ZEXT) return zext(a->a,w);
    if (a->k==E_ITE && iteLeaves(a,12)) return ite(a->a,sext(a->b,w),sext(a->c,w));
    return intern(E_SEXT,w,0,a); }
  const Expr* extract(const Expr* a, unsigned lo, unsigned w) {
    if (lo==0 && w==a->w) return a;
    if (isC(a)) return cst(a->v>>lo,w);
    switch (a->k) {
      case E_EXTRACT: return extract(a->a,lo+(unsigned)a->v,w);
      case E_CONCAT: if (lo>=a->b->w) return extract(a->a,lo-a->b->w,w); if (lo+w<=a->b->w) return extract(a->b,lo,w); break;
      case E_ZEXT: if (lo>=a->a->w) return cst(0,w); if (lo+w<=a->a->w) return extract(a->a,lo,w); if (lo==0) return zext(a->a,w); break;
      case E_SEXT: if (lo+w<=a->a->w) return extract(a->a,lo,w); if (lo==0) return sext(a->a,w); break;
      case E_ITE: if (isC(a->b)||isC(a->c)) return ite(a->a,extract(a->b,lo,w),extract(a->c,lo,w)); break;
      case E_AND: case E_OR: case E_XOR: if (isC(a->b)) return bin(a->k,extract(a->a,lo,w),extract(a->b,lo,w)); break;
      case E_ADD: case E_SUB: case E_MUL: if (lo==0 && w>=32) return bin(a->k,extract(a->a,0,w),extract(a->b,0,w)); break;
      default: break; }
    return intern(E_EXTRACT,w,lo,a); }
  const Expr* concat(const Expr* hi, const Expr* lo) {
    unsigned w=hi->w+lo->w;
    if (isC(hi)&&isC(lo)) return cst((hi->v<<lo->w)|lo->v,w);
    if (isC(hi)&&hi->v==0) return zext(lo,w);
    if (hi->k==E_EXTRACT && lo->k==E_EXTRACT && hi->a==lo->a && (unsigned)hi->v==(unsigned)lo->v+lo->w) return (w==hi->a->w||w>=32)?extract(hi->a,(unsigned)lo->v,w):intern(E_EXTRACT,w,(unsigned)lo->v,hi->a);
    if (hi->k==E_EXTRACT && hi->a==lo && (unsigned)hi->v==lo->w) return extract(hi->a,0,w);
    // ite trees over the same condition (bytes of an ite of constants)
    if (hi->k==E_ITE && lo->k==E_ITE && hi->a==lo->a) return ite(hi->a,concat(hi->b,lo->b),concat(hi->c,lo->c));
    if (hi->k==E_ITE && isC(lo) && iteLeaves(hi,12)) return ite(hi->a,concat(hi->b,lo),concat(hi->c,lo));
    if (lo->k==E_ITE && isC(hi) && iteLeaves(lo,12)) return ite(lo->a,concat(hi,lo->b),concat(hi,lo->c));
    return intern(E_CONCAT,w,0,hi,lo); }

  std::string str(const Expr* e, int d=6) { static const char* n[]={"","","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s"}; if (!e) return "?"; if (e->k==E_CONST) return std::to_string((unsigned long long)e->v); if (e->k==E_VAR) return vars[(uint32_t)e->v].name; if (!d) return "..."; switch (e->k) { case E_ITE: return "("+str(e->a,d-1)+" ? "+str(e->b,d-1)+" : "+str(e->c,d-1)+")"; case E_ZEXT: return "zx"+std::to_string(e->w)+"("+str(e->a,d-1)+")"; case E_SEXT: return "sx"+std::to_string(e->w)+"("+str(e->a,d-1)+")"; case E_EXTRACT: return str(e->a,d-1)+"["+std::to_string((int)e->v)+"+"+std::to_string(e->w)+"]"; case E_CONCAT: return "{"+str(e->a,d-1)+","+str(e->b,d-1)+"}"; default: return "("+str(e->a,d-1)+n[e->k]+str(e->b,d-1)+")"; } }
  u128 eval(const Expr* e, const Model& m) { ++stamp; return ev(e,m); }
  u128 ev(const Expr* e, const Model& m) {
    if (e->k==E_CONST) return e->v;
    if (e->stamp==stamp) return e->ev;
    u128 r;
    switch (e->k) {
      case E_VAR: r=m.get((uint32_t)e->v)&maskw(e->w); break;
      case E_ITE: r=ev(e->a,m)?ev(e->b,m):ev(e->c,m); break;
      case E_ZEXT: r=ev(e->a,m); break;
      case E_SEXT: r=(u128)sx(ev(e->a,m),e->a->w)&maskw(e->w); break;
      case E_EXTRACT: r=(ev(e->a,m)>>(unsigned)e->v)&maskw(e->w); break;
      case E_CONCAT: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
      default: r=fold(e->k,ev(e->a,m),ev(e->b,m),e->a->w);
    }
    e->stamp=stamp; e->ev=r; return r; }
  const std::vector<uint32_t>& varsOf(const Expr* e) {
    if (!e->vs) {
      e->vs=std::make_shared<std::vector<uint32_t>>();
      if (e->k==E_VAR) e->vs->push_back((uint32_t)e->v);
      else for (const Expr* x : {e->a,e->b,e->c}) if (x && x->k!=E_CONST) { auto& s=varsOf(x); 
        std::vector<uint32_t> t; std::set_union(e->vs->begin(),e->vs->end(),s.begin(),s.end(),std::back_inserter(t)); *e->vs=t; }
    }
    return *e->vs; }
};
extern EB eb;

// ---------------------------------------------------------------- solver
struct SolverStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, cached=0, model_hits=0, idl=0; double time=0, maxq=0; };
struct Solver { double slowlog=0;
  Z3_context ctx; Z3_solver s=nullptr; SolverStats st; unsigned timeout_ms=120000;
  struct CE { int r; std::vector<std::pair<uint32_t,uint64_t>> m; };
  std::unordered_map<std::string, CE> cache;
  Solver() { Z3_config c=Z3_mk_config(); ctx=Z3_mk_context_rc(c); Z3_del_config(c);
    Z3_set_error_handler(ctx,[](Z3_context c, Z3_error_code e){ fprintf(stderr,"asym: z3 error %s\n",Z3_get_error_msg(c,e)); _exit(70); });
    fresh("QF_BV"); }
  // Queries that only compare variables and constants (order chains of comparators) are handed to Z3 as
  // linear integer constraints with the variables' exact ranges: same models, far cheaper than bit-blasting.
  Z3_sort is_=nullptr; Z3_sort isort() { if (!is_) { is_=Z3_mk_int_sort(ctx); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,is_)); } return is_; }
  bool useInt=true; std::unordered_map<uint32_t,int> sgn; bool mixed=false; std::unordered_map<uint32_t,Z3_ast> iv;
  Z3_ast ivar(uint32_t v) { auto it=iv.find(v); if (it!=iv.end()) return it->second; std::string n="i"+std::to_string(v); return iv[v]=keep(Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()),isort())); }
  std::vector<Z3_ast> tmps; Z3_ast tmp(Z3_ast a) { Z3_inc_ref(ctx,a); tmps.push_back(a); return a; }
  Z3_ast inum(u128 v, unsigned w, bool sg) { bool neg=sg&&w>0&&((v>>(w-1))&1); if (neg) v=((u128)0-v)&maskw(w); std::string t; if (!v) t="0"; while (v) { t.insert(t.begin(),'0'+(int)(v%10)); v/=10; } if (neg) t="-"+t; return tmp(Z3_mk_numeral(ctx,t.c_str(),isort())); }
  // integer view; sg: 1 = unsigned, 2 = signed, 0 = either (equality)
  Z3_ast IV(const Expr* e, int sg) {
    switch (e->k) {
      case E_CONST: return inum(e->v,e->w,sg==2);
      case E_VAR: { if (e->w>64) return nullptr; int& x=sgn[(uint32_t)e->v]; if (x&&x!=sg) { mixed=true; return nullptr; } x=sg; return ivar((uint32_t)e->v); }
      case E_ITE: { if (e->w==1) break; Z3_ast c=IB(e->a), a=c?IV(e->b,sg):nullptr, b=a?IV(e->c,sg):nullptr; return b?tmp(Z3_mk_ite(ctx,c,a,b)):nullptr; }
      case E_ZEXT: if (e->a->w==1) { Z3_ast c=IB(e->a); return c?tmp(Z3_mk_ite(ctx,c,inum(1,32,false),inum(0,32,false))):nullptr; } return IV(e->a,1);
      case E_SEXT: if (e->a->w==1||sg!=2) return nullptr; return IV(e->a,2);
      default: break; }
    return nullptr; }
  int sgOf(const Expr* e) { switch (e->k) { case E_VAR: { auto it=sgn.find((uint32_t)e->v); return it==sgn.end()?0:it->second; } case E_ZEXT: return e->a->w==1?1:1; case E_SEXT: return 2; case E_ITE: { int x=sgOf(e->b); return x?x:sgOf(e->c); } default: return 0; } }
  Z3_ast IB(const Expr* e) {
    Z3_ast t[2];
    switch (e->k) {
      case E_CONST: return tmp(e->v?Z3_mk_true(ctx):Z3_mk_false(ctx));
      case E_EQ: if (e->a->w==1) { t[0]=IB(e->a); t[1]=t[0]?IB(e->b):nullptr; return t[1]?tmp(Z3_mk_eq(ctx,t[0],t[1])):nullptr; }
        { int sg=sgOf(e->a); if (!sg) sg=sgOf(e->b); if (!sg) sg=2; t[0]=IV(e->a,sg); t[1]=t[0]?IV(e->b,sg):nullptr; return t[1]?tmp(Z3_mk_eq(ctx,t[0],t[1])):nullptr; }
      case E_ULT: case E_ULE: case E_SLT: case E_SLE: { if (e->a->w==1) return nullptr; int sg=(e->k==E_ULT||e->k==E_ULE)?1:2; t[0]=IV(e->a,sg); t[1]=t[0]?IV(e->b,sg):nullptr; if (!t[1]) return nullptr;
        return tmp((e->k==E_ULT||e->k==E_SLT)?Z3_mk_lt(ctx,t[0],t[1]):Z3_mk_le(ctx,t[0],t[1])); }
      case E_AND: case E_OR: case E_XOR: t[0]=IB(e->a); t[1]=t[0]?IB(e->b):nullptr; if (!t[1]) return nullptr; if (e->k==E_XOR) return tmp(Z3_mk_xor(ctx,t[0],t[1])); return tmp(e->k==E_AND?Z3_mk_and(ctx,2,t):Z3_mk_or(ctx,2,t));
      case E_ITE: { Z3_ast c=IB(e->a), a=c?IB(e->b):nullptr, b=a?IB(e->c):nullptr; return b?tmp(Z3_mk_ite(ctx,c,a,b)):nullptr; }
      default: return nullptr; } }
  void fresh(const char* logic) { if (s) Z3_solver_dec_ref(ctx,s);
    s=logic[3]=='L'?Z3_mk_simple_solver(ctx):Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,logic)); Z3_solver_inc_ref(ctx,s);
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),timeout_ms);
    Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx,a); return a; }
  std::map<std::pair<u128,unsigned>,Z3_ast> nums; std::map<unsigned,Z3_sort> sorts;
  Z3_sort bvs(unsigned w) { auto it=sorts.find(w); if (it!=sorts.end()) return it->second; Z3_sort so=Z3_mk_bv_sort(ctx,w); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,so)); return sorts[w]=so; }
  Z3_ast num(u128 v, unsigned w) { auto k=std::make_pair(v,w); auto it=nums.find(k); if (it!=nums.end()) return it->second; Z3_sort so=bvs(w); if (w<=64) return nums[k]=keep(Z3_mk_unsigned_int64(ctx,(uint64_t)v,so));
    std::string t; u128 q=v; if (!q) t="0"; while (q) { t.insert(t.begin(),'0'+(int)(q%10)); q/=10; } return nums[k]=keep(Z3_mk_numeral(ctx,t.c_str(),so)); }
  Z3_ast B(const Expr* e) {       // boolean view of a width-1 expression
    if (e->zb) return e->zb;
    Z3_ast r; Z3_ast t[2];
    switch (e->k) {
      case E_CONST: r=e->v?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
      case E_EQ: if (e->a->w==1) r=Z3_mk_eq(ctx,B(e->a),B(e->b)); else r=Z3_mk_eq(ctx,V(e->a),V(e->b)); break;
      case E_ULT: r=Z3_mk_bvult(ctx,V(e->a),V(e->b)); break; case E_ULE: r=Z3_mk_bvule(ctx,V(e->a),V(e->b)); break;
      case E_SLT: r=Z3_mk_bvslt(ctx,V(e->a),V(e->b)); break; case E_SLE: r=Z3_mk_bvsle(ctx,V(e->a),V(e->b)); break;
      case E_AND: t[0]=B(e->a); t[1]=B(e->b); r=Z3_mk_and(ctx,2,t); break;
      case E_OR: t[0]=B(e->a); t[1]=B(e->b); r=Z3_mk_or(ctx,2,t); break;
      case E_XOR: if (EB::isC(e->b)) r=Z3_mk_not(ctx,B(e->a)); else r=Z3_mk_xor(ctx,B(e->a),B(e->b)); break;
      case E_ITE: r=Z3_mk_ite(ctx,B(e->a),B(e->b),B(e->c)); break;
      default: r=Z3_mk_eq(ctx,V(e),num(1,1)); }
    return e->zb=keep(r); }
  Z3_ast V(const Expr* e) {
    if (e->z) return e->z;
    Z3_ast r;
    if (e->w==1 && e->k!=E_VAR && e->k!=E_CONST && e->k!=E_EXTRACT) r=Z3_mk_ite(ctx,B(e),num(1,1),num(0,1));
    else switch (e->k) {
      case E_CONST: r=num(e->v,e->w); break;
      case E_VAR: { std::string n="v"+std::to_string((uint64_t)e->v); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()),bvs(e->w)); break; }
      case E_ADD: r=Z3_mk_bvadd(ctx,V(e->a),V(e->b)); break; case E_SUB: r=Z3_mk_bvsub(ctx,V(e->a),V(e->b)); break;
      case E_MUL: r=Z3_mk_bvmul(ctx,V(e->a),V(e->b)); break; case E_UDIV: r=Z3_mk_bvudiv(ctx,V(e->a),V(e->b)); break;
      case E_SDIV: r=Z3_mk_bvsdiv(ctx,V(e->a),V(e->b)); break; case E_UREM: r=Z3_mk_bvurem(ctx,V(e->a),V(e->b)); break;
      case E_SREM: r=Z3_mk_bvsrem(ctx,V(e->a),V(e->b)); break; case E_AND: r=Z3_mk_bvand(ctx,V(e->a),V(e->b)); break;
      case E_OR: r=Z3_mk_bvor(ctx,V(e->a),V(e->b)); break; case E_XOR: r=Z3_mk_bvxor(ctx,V(e->a),V(e->b)); break;
      case E_SHL: r=Z3_mk_bvshl(ctx,V(e->a),V(e->b)); break; case E_LSHR: r=Z3_mk_bvlshr(ctx,V(e->a),V(e->b)); break;
      case E_ASHR: r=Z3_mk_bvashr(ctx,V(e->a),V(e->b)); break;
      case E_ITE: r=Z3_mk_ite(ctx,B(e->a),V(e->b),V(e->c)); break;
      case E_ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,V(e->a)); break; case E_SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,V(e->a)); break;
      case E_EXTRACT: r=Z3_mk_extract(ctx,(unsigned)e->v+e->w-1,(unsigned)e->v,V(e->a)); break;
      case E_CONCAT: r=Z3_mk_concat(ctx,V(e->a),V(e->b)); break;
      default: r=Z3_mk_ite(ctx,B(e),num(1,1),num(0,1)); }
    return e->z=keep(r); }
  // pc: path condition with model m satisfying it. Is pc && cond satisfiable? 1/0/-1; *out gets a model.
  int check(const std::vector<const Expr*>& pc, const Expr* cond, const ModelP& m, ModelP* out) {
    if (EB::isC(cond)) { if (cond->v && out) *out=m; return cond->v!=0; }
    // slice
    std::vector<const Expr*> sl; std::vector<char> in(pc.size(),0); std::vector<uint32_t> vs=eb.varsOf(cond);
    bool ch=true; while (ch) { ch=false;
      for (size_t i=pc.size(); i-->0;) if (!in[i]) { auto& pv=eb.varsOf(pc[i]); bool hit=false;
        size_t x=0,y=0; while (x<pv.size()&&y<vs.size()) { if (pv[x]==vs[y]) { hit=true; break; } if (pv[x]<vs[y]) ++x; else ++y; }
        if (hit) { in[i]=1; sl.push_back(pc[i]); size_t o=vs.size(); std::vector<uint32_t> t; std::set_union(vs.begin(),vs.end(),pv.begin(),pv.end(),std::back_inserter(t)); vs.swap(t); if (vs.size()!=o) ch=true; } } }
    for (const Expr* e : sl) if (e==cond) { if (out) *out=m; return 1; }
    { const Expr* n=eb.Not(cond); for (const Expr* e : sl) if (e==n) return 0; }
    { std::unordered_map<const Expr*,bool> known; for (const Expr* e : sl) { known[e]=true; if (e->k==E_SLT||e->k==E_ULT) { known[eb.bin(e->k==E_SLT?E_SLE:E_ULE,e->a,e->b)]=true; known[eb.bin(e->k,e->b,e->a)]=false; known[eb.bin(E_EQ,e->a,e->b)]=false; } }
      std::unordered_map<const Expr*,const Expr*> memo;
      std::function<const Expr*(const Expr*)> simp=[&](const Expr* e)->const Expr* { if (EB::isC(e)||e->w!=1) return e; auto it=memo.find(e); if (it!=memo.end()) return it->second; const Expr* r=e; auto k=known.find(e); if (k!=known.end()) r=k->second?eb.T():eb.F(); else { k=known.find(eb.Not(e)); if (k!=known.end()) r=k->second?eb.F():eb.T();
          else if (e->k==E_AND||e->k==E_OR||e->k==E_XOR||(e->k==E_EQ&&e->a->w==1)) { auto x=simp(e->a), y=simp(e->b); if (x!=e->a||y!=e->b) r=eb.bin(e->k,x,y); }
          else if (e->k==E_ITE) { auto x=simp(e->a), y=simp(e->b), z=simp(e->c); if (x!=e->a||y!=e->b||z!=e->c) r=eb.ite(x,y,z); } }
        return memo[e]=r; };
      cond=simp(cond); if (EB::isC(cond)) { st.cached++; if (cond->v && out) *out=m; return cond->v!=0; } }
    std::vector<uint32_t> ids; for (auto e:sl) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.push_back(cond->id);
    std::string key((char*)ids.data(),ids.size()*4);
    auto it=cache.find(key);
    if (it==cache.end()) {
      auto t0=std::chrono::steady_clock::now();
      bool idl=false; Z3_lbool r; { std::vector<Z3_ast> ia; std::vector<std::pair<uint32_t,int>> ivs; bool ok=useInt; sgn.clear(); mixed=false;
        if (ok) for (auto e: sl) { Z3_ast x=IB(e); if (!x||mixed) { ok=false; break; } ia.push_back(x); }
        if (ok) { Z3_ast x=IB(cond); if (!x||mixed) ok=false; else ia.push_back(x); }
        fresh(ok?"QF_LIA":"QF_BV"); idl=ok;
        if (ok) { for (auto& p: sgn) { unsigned w=eb.vars[p.first].w; Z3_ast v=ivar(p.first); Z3_sort is=isort();
            auto pw=[&](unsigned k, bool neg, bool m1) { u128 q=(u128)1<<k; if (m1) q-=1; std::string t; while (q) { t.insert(t.begin(),'0'+(int)(q%10)); q/=10; } if (t.empty()) t="0"; if (neg) t="-"+t; return tmp(Z3_mk_numeral(ctx,t.c_str(),is)); };
            bool sg=p.second==2; Z3_solver_assert(ctx,s,tmp(Z3_mk_ge(ctx,v,sg?pw(w-1,true,false):pw(0,false,true)))); Z3_solver_assert(ctx,s,tmp(Z3_mk_le(ctx,v,pw(sg?w-1:w,false,true)))); }
          for (auto x: ia) Z3_solver_assert(ctx,s,x); st.idl++; }
        else { for (auto e:sl) Z3_solver_assert(ctx,s,B(e)); Z3_solver_assert(ctx,s,B(cond)); } }
      r=Z3_solver_check(ctx,s);
      if (slowlog && std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>slowlog) { fprintf(stderr,"slow query: %s\n",eb.str(cond,14).c_str()); for (auto e: sl) fprintf(stderr,"     under %s\n",eb.str(e,10).c_str()); }
      double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
      st.time+=dt; st.maxq=std::max(st.maxq,dt); st.queries++;
      CE ce;
      if (r==Z3_L_TRUE) { st.sat++; ce.r=1; Z3_model zm=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,zm);
        for (uint32_t v:vs) { const Expr* ve=eb.intern(E_VAR,eb.vars[v].w,v); Z3_ast o; uint64_t x=0;
          if (idl) { if (Z3_model_eval(ctx,zm,ivar(v),true,&o)) { Z3_inc_ref(ctx,o); int64_t y=0; if (sgn.count(v)&&sgn[v]==2) { Z3_get_numeral_int64(ctx,o,&y); x=(uint64_t)((u128)y&maskw(ve->w)); } else Z3_get_numeral_uint64(ctx,o,&x); Z3_dec_ref(ctx,o); } }
          else if (Z3_model_eval(ctx,zm,V(ve),true,&o)) { Z3_inc_ref(ctx,o); Z3_get_numeral_uint64(ctx,o,&x); Z3_dec_ref(ctx,o); }
          ce.m.push_back({v,x}); }
        Z3_model_dec_ref(ctx,zm); }
      else if (r==Z3_L_FALSE) { st.unsat++; ce.r=0; } else { st.unknown++; ce.r=-1; }
      for (auto x: tmps) Z3_dec_ref(ctx,x); tmps.clear();
      if (cache.size()>400000) cache.clear();
      it=cache.emplace(std::move(key),std::move(ce)).first;
    } else st.cached++;
    if (it->second.r==1 && out) { auto nm=std::make_shared<Model>(*m); for (auto& p:it->second.m) { if (nm->v.size()<=p.first) nm->v.resize(p.first+1); nm->v[p.first]=p.second; } *out=nm; }
    return it->second.r; }
};
