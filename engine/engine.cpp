// asym: symbolic executor for LLVM IR (clang 18) used by /verif.
// One process explores one harness entry: inputs are solver variables, thread
// interleavings are explored with dynamic partial-order reduction, and every
// branch on symbolic data, every assertion and every memory access is decided by Z3.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <array>
#include <deque>
#include <functional>
#include <fstream>
#include <sstream>
#include <cmath>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
EB eb; static Solver* solver;
typedef uint64_t u64; typedef int64_t i64;

template<class T> struct Ref {                     // intrusive, single-threaded
  T* p=nullptr; Ref(){} Ref(T* x):p(x){ if(p) ++p->refs; } Ref(const Ref& o):p(o.p){ if(p) ++p->refs; } Ref(Ref&& o):p(o.p){ o.p=nullptr; }
  ~Ref(){ if(p && --p->refs==0) T::destroy(p); }
  Ref& operator=(Ref o){ std::swap(p,o.p); return *this; }
  T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p; }
};
// ------------------------------------------------------------------ options
struct Opt { std::string bc, entry, out, replay, replaydir="."; double maxtime=600; u64 maxpaths=~0ull; u64 maxsteps=80000000; int preempt=2; bool verbose=false, races=false; bool rcvis=false; int samples=3; int idle=40; bool trace=false; int maxviol=1; int shard=0,nshard=1; int spur=0; bool nosleep=false, full=false, timeouts=false; u64 dbg=0; } opt;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0;
[[noreturn]] static void die(const std::string& m) { fprintf(stderr,"asym: %s\n",m.c_str()); fflush(0); _exit(3); }
static std::string dem(const std::string& n) { std::string r=llvm::demangle(n); return r; }

// ------------------------------------------------------------------ values
struct Val { u64 c; const Expr* e; };
static inline Val C(u64 v) { return {v,nullptr}; }
static inline const Expr* ex(Val v, unsigned w) { return v.e ? v.e : eb.cst(v.c,w); }
static inline Val mk(const Expr* e) { if (e->k==E_CONST && e->w<=64) return {(u64)e->v,nullptr}; return {0,e}; }
static inline u64 msk(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sxt(u64 v, unsigned w) { return w>=64 ? (i64)v : (i64)(v<<(64-w))>>(64-w); }

// ------------------------------------------------------------------ memory
enum : uint8_t { K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_FN };
static const int MAXT=14;
struct VC { std::array<uint32_t,MAXT> c{}; void join(const VC& o){ for(int i=0;i<MAXT;i++) c[i]=std::max(c[i],o.c[i]); } };
struct Acc { uint32_t lr[MAXT]={}, lw[MAXT]={}; VC vr, vw, rel; }; // last accesses and clocks of the reduction; rel: clock released here (happens-before)
struct Sync { int refs=0; std::map<uint32_t,Acc> m; static void destroy(Sync* s){ delete s; } };
struct RaceCell { uint8_t wt=255; uint32_t we=0; uint32_t r[MAXT]={}; const char* wsrc=nullptr; };
struct Races { int refs=0; std::map<uint32_t,RaceCell> m; static void destroy(Races* s){ delete s; } };
struct Obj {
  int refs=0; uint32_t id, size; uint8_t kind, ak; bool lockedfree=false; uint8_t* d; const Expr** s=nullptr; Ref<Sync> sync; Ref<Races> races; const char* what;
  static Obj* make(uint32_t id, uint32_t size, uint8_t kind) { Obj* o=new Obj; o->id=id;o->size=size;o->kind=kind;o->ak=0;o->d=(uint8_t*)malloc(size?size:1); o->what=""; return o; }
  static void destroy(Obj* o) { free(o->d); if(o->s) free(o->s); delete o; }
  Obj* clone() const { Obj* o=make(id,size,kind); o->ak=ak; o->what=what; memcpy(o->d,d,size); if(s){ o->s=(const Expr**)malloc(sizeof(Expr*)*size); memcpy(o->s,s,sizeof(Expr*)*size);} o->sync=sync; o->races=races; return o; }
  void needSym() { if(!s) s=(const Expr**)calloc(size?size:1,sizeof(Expr*)); }
};
static const unsigned OB=22; static const u64 OMASK=(1ull<<OB)-1;
struct Page { int refs=0; int live=0; Ref<Obj> o[64]; static void destroy(Page* p){ delete p; } };
struct Mem {
  std::vector<Ref<Page>> pages; uint32_t next=64;
  Obj* get(u64 id) const { if (id>=next) return nullptr; Page* p=pages[id>>6].p; return p?p->o[id&63].p:nullptr; }
  Page* pageW(u64 pi) { Ref<Page>& r=pages[pi]; if(!r) r=Ref<Page>(new Page); else if (r->refs>1) { Page* q=new Page; q->live=r->live; for(int i=0;i<64;i++) q->o[i]=r->o[i]; r=Ref<Page>(q);} return r.p; }
  Obj* getW(u64 id) { Page* p=pageW(id>>6); Ref<Obj>& r=p->o[id&63]; if (r->refs>1) r=Ref<Obj>(r->clone()); return r.p; }
  Obj* alloc(uint32_t size, uint8_t kind) { uint32_t id=next++; if (id>=(1u<<25)) die("object ids exhausted"); if ((id>>6)>=pages.size()) pages.resize((id>>6)+1);
    Obj* o=Obj::make(id,size,kind); Page* p=pageW(id>>6); p->o[id&63]=Ref<Obj>(o); p->live++; return o; }
  void release(u64 id) { Page* p=pageW(id>>6); p->o[id&63]=Ref<Obj>(); if (--p->live==0 && (id>>6)!=((next-1)>>6)) pages[id>>6]=Ref<Page>(); }
};
// ------------------------------------------------------------------ code
// bit 0: acquire, bit 1: release, bit 2: read-modify-write
static uint8_t ordOf(AtomicOrdering a) { switch (a) { case AtomicOrdering::Acquire: return 1; case AtomicOrdering::Release: return 2; case AtomicOrdering::AcquireRelease: case AtomicOrdering::SequentiallyConsistent: return 3; default: return 0; } }
enum Op : uint8_t { O_BIN, O_ICMP, O_FCMP, O_FBIN, O_FNEG, O_CAST, O_FCAST, O_MOV, O_SEL, O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_RESUME, O_LPAD, O_UNREACH, O_RMW, O_CAS, O_FENCE, O_INSEL, O_EXEL, O_FREEZE };
struct Fn; struct CallI;
struct Edge { uint32_t pc; std::vector<std::pair<int,int>> cp; };
struct Leaf { uint32_t off; uint16_t bits; uint16_t bytes; };
struct Inst { Op op; uint8_t sub; bool atomic=false, cov=false; uint8_t refc=0, ord=0; uint16_t w=0,w2=0; int dst=-1, a=0,b=0,c=0; uint32_t x=0, n=1; const Instruction* src=nullptr; };
struct GepI { u64 off; std::vector<std::array<i64,3>> idx; };  // operand, scale, width
struct SwI { std::vector<std::pair<u128,int>> cases; int def; std::vector<int> edges; };
typedef void (*Builtin)(struct Eng&, const Inst&, CallI&);
struct CallI { Function* f=nullptr; int fp=0; std::vector<std::pair<int,int>> args; std::vector<uint16_t> aw; std::vector<u64> byval; int rets=0; int normal=-1, unwind=-1; Builtin bi=nullptr; Fn* target=nullptr; bool resolved=false; };
struct LpI { bool cleanup; std::vector<std::pair<int,u64>> cl; std::vector<std::vector<u64>> filt; }; // (0,ti) catch ; (1,idx) filter
struct Fn {
  Function* f; std::string name, dname; bool decoded=false; std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<GepI> geps; std::vector<SwI> sws; std::vector<CallI> calls; std::vector<LpI> lps; std::vector<std::vector<Leaf>> leaves;
  std::vector<uint32_t> lpAt; int nregs=0; std::vector<int> argSlot; std::vector<int> argN; uint64_t execs=0; bool lib=false, rt=false; u64 addr=0; std::vector<const Expr*> bigc;
};
struct Frame {
  int refs=0; Fn* fn; uint32_t pc=0; std::vector<Val> R; std::vector<uint32_t> al; std::vector<Val> va; 
  static void destroy(Frame* f){ delete f; }
};
enum TS : uint8_t { T_RUN, T_PEND, T_DONE };
enum PK : uint8_t { P_START, P_READ, P_WRITE, P_LOCK, P_UNLOCK, P_CWAIT, P_CWOKEN, P_BLOCKNE, P_YIELD, P_JOIN, P_SLEEP, P_OTHER };
struct Thread {
  int id; TS st=T_RUN; PK pk=P_START; u64 addr=0; u64 arg=0; bool granted=false; bool yielded=false; bool timed=false; u64 deadline=0; bool timedout=false; int phase=0; u64 mtx=0; VC vc, hv, acqPend, relF; uint32_t cwseq=0, wait=0, since=0; int yc=0; bool tick=false;
  std::vector<Ref<Frame>> fr; std::map<u64,u64> tls; u64 startfn=0;
};
struct Ev { uint8_t k; int a; u64 v; };            // replay trace: k=0 var(index), k=1 sched(thread)
struct State {
  Mem mem; std::vector<Thread> th; int cur=0; std::vector<const Expr*> pc; ModelP m; u64 steps=0; 
  std::vector<uint32_t> vars; std::vector<int> sched; std::map<std::string,int> vcount; uint32_t opidx=0; int preempts=0; int lastRun=-1; bool window=false; int bound=0; u64 clock=1000000000ull; int idle=0; uint32_t cwctr=0; int depth=0;
  std::vector<std::pair<std::string,Val>> outs; std::vector<std::string> reach; int rr=0; uint32_t sleep=0;
};
struct Node { bool sched; State* s; uint32_t idx=0; int prevRun=-1; int chosen=-1; bool prevEnabled=false; uint32_t enabled=0, back=0, done=0, asleep=0, te=0; u64 skips=0; };
struct Kill {};                                     // end of the current path
struct Switch {};                                   // reschedule
struct Restart {};                                  // instruction is executed again later

struct Violation { std::string kind,msg,stack; std::vector<std::pair<std::string,u64>> vars; std::vector<int> sched; std::vector<std::string> notes; };

static LLVMContext* LC; static Module* M; static const DataLayout* DL;

struct Eng {
  State* s=nullptr; Thread* t=nullptr; Frame* f=nullptr; Val* R=nullptr; Fn* fn=nullptr;
  std::vector<Node> stack; std::vector<int> schedNodes;   // indices into stack
  std::unordered_map<const Function*,Fn*> fns; std::unordered_map<u64,Fn*> fnByAddr; std::unordered_map<const GlobalValue*,u64> gaddr; std::unordered_map<u64,const GlobalVariable*> gtls;
  std::unordered_map<u64,int> typeIds; std::vector<u64> typeIdRev{0};
  std::map<std::string,Builtin> bi; State init;
  u64 paths=0, completed=0, assumeKilled=0, forks=0, instrs=0, schedPts=0, schedBranches=0, boundSkips=0, sleepCuts=0, asserts=0, assertQ=0, stepKills=0; bool incomplete=false; std::set<std::string> incWhy; std::map<std::string,u64> reachCount;
  std::vector<Violation> viol; std::vector<std::string> samples; 
  std::vector<int> rsched; std::vector<std::pair<std::string,u64>> rvars; bool replaying=false; size_t rsi=0;
  u64 maxDepth=0; int maxThreads=1;

  // ---------------------------------------------------------------- module set-up
  u64 gv(const GlobalValue* g) { 
    if (auto* a=dyn_cast<GlobalAlias>(g)) return (u64)cval(a->getAliasee())[0].c;
    auto it=gaddr.find(g); if (it!=gaddr.end()) return it->second;
    if (auto* F=dyn_cast<Function>(g)) { Obj* o=init.mem.alloc(1,K_FN); (s&&s!=&init)?void():void(); u64 ad=(u64)o->id<<OB; gaddr[g]=ad; Fn* x=getFn(const_cast<Function*>(F)); x->addr=ad; fnByAddr[ad]=x; return ad; }
    die("global without address: "+g->getName().str()); }
  Fn* getFn(Function* F) { auto it=fns.find(F); if (it!=fns.end()) return it->second; Fn* x=new Fn; x->f=F; x->name=F->getName().str(); x->dname=dem(x->name); fns[F]=x; 
    x->lib = x->dname.find("boost::asynchronous")!=std::string::npos; return x; }
  void flat(Type* T, u64 off, std::vector<Leaf>& v) {
    if (auto* S=dyn_cast<StructType>(T)) { auto* L=DL->getStructLayout(S); for (unsigned i=0;i<S->getNumElements();i++) flat(S->getElementType(i),off+L->getElementOffset(i),v); return; }
    if (auto* A=dyn_cast<ArrayType>(T)) { u64 z=DL->getTypeAllocSize(A->getElementType()); for (u64 i=0;i<A->getNumElements();i++) flat(A->getElementType(),off+i*z,v); return; }
    if (auto* A=dyn_cast<FixedVectorType>(T)) { u64 z=DL->getTypeSizeInBits(A->getElementType())/8; if(!z) z=1; for (u64 i=0;i<A->getNumElements();i++) flat(A->getElementType(),off+i*z,v); return; }
    if (T->isVoidTy()) return;
    unsigned b=(unsigned)DL->getTypeSizeInBits(T); v.push_back({(uint32_t)off,(uint16_t)b,(uint16_t)((b+7)/8)}); }
  std::vector<Leaf> flatT(Type* T) { std::vector<Leaf> v; flat(T,0,v); return v; }
  unsigned nslots(Type* T) { return T->isVoidTy()||T->isLabelTy()||T->isMetadataTy()||T->isTokenTy() ? 0 : flatT(T).size(); }
  Val big(u128 v, unsigned w) { if (w<=64) return C((u64)v&msk(w)); return {0,eb.cst(v,w)}; }
  std::vector<Val> cval(const Constant* c) {
    Type* T=c->getType();
    if (auto* i=dyn_cast<ConstantInt>(c)) { const APInt& a=i->getValue(); unsigned w=a.getBitWidth(); if (w>128) die("wide constant"); u128 v=a.getRawData()[0]; if (w>64) v|=(u128)a.getRawData()[1]<<64; return {big(v,w)}; }
    if (auto* x=dyn_cast<ConstantFP>(c)) { APInt a=x->getValueAPF().bitcastToAPInt(); unsigned w=a.getBitWidth(); u128 v=a.getRawData()[0]; if (w>64) v|=(u128)a.getRawData()[1]<<64; return {big(v,w)}; }
    if (isa<ConstantPointerNull>(c)) return {C(0)};
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Val> r; for (auto& l: flatT(T)) r.push_back(big(0,l.bits)); return r; }
    if (auto* g=dyn_cast<GlobalValue>(c)) { if (auto* v=dyn_cast<GlobalVariable>(g)) if (v->isThreadLocal()) return {C(gaddr[g])}; return {C(gv(g))}; }
    if (auto* a=dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> r; for (unsigned i=0;i<a->getNumElements();i++) { auto e=cval(a->getElementAsConstant(i)); r.insert(r.end(),e.begin(),e.end()); } return r; }
    if (isa<ConstantAggregate>(c)) { std::vector<Val> r; for (auto& o: c->operands()) { auto e=cval(cast<Constant>(o)); r.insert(r.end(),e.begin(),e.end()); } return r; }
    if (auto* x=dyn_cast<ConstantExpr>(c)) {
      switch (x->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64,0); auto* g=cast<GEPOperator>(x); if (!g->accumulateConstantOffset(*DL,off)) die("const gep"); return {C(cval(x->getOperand(0))[0].c+off.getZExtValue())}; }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return cval(x->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { Val v=cval(x->getOperand(0))[0]; unsigned w=DL->getTypeSizeInBits(T); return {C(v.c&msk(w))}; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          static std::map<unsigned,EK> k={{Instruction::Add,E_ADD},{Instruction::Sub,E_SUB},{Instruction::Mul,E_MUL},{Instruction::And,E_AND},{Instruction::Or,E_OR},{Instruction::Xor,E_XOR},{Instruction::Shl,E_SHL},{Instruction::LShr,E_LSHR},{Instruction::AShr,E_ASHR}};
          unsigned w=DL->getTypeSizeInBits(T); return {C((u64)EB::fold(k[x->getOpcode()],cval(x->getOperand(0))[0].c,cval(x->getOperand(1))[0].c,w))}; }
        case Instruction::ICmp: { u64 a=cval(x->getOperand(0))[0].c,b=cval(x->getOperand(1))[0].c; auto p=cast<ConstantExpr>(x)->getPredicate(); if (p==CmpInst::ICMP_EQ) return {C(a==b)}; if (p==CmpInst::ICMP_NE) return {C(a!=b)}; if (p==CmpInst::ICMP_UGT) return {C(a>b)}; if (p==CmpInst::ICMP_ULT) return {C(a<b)}; die("const icmp"); }
        default: die(std::string("const expr ")+x->getOpcodeName()); } }
    if (isa<BlockAddress>(c)) return {C(0)};
    if (isa<DSOLocalEquivalent>(c)) return cval(cast<DSOLocalEquivalent>(c)->getGlobalValue());
    if (isa<NoCFIValue>(c)) return cval(cast<NoCFIValue>(c)->getGlobalValue());
    die("constant kind"); }
  void initObj(Obj* o, const Constant* c, u64 off) {
    if (isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
    if (auto* a=dyn_cast<ConstantDataSequential>(c)) { StringRef d=a->getRawDataValues(); memcpy(o->d+off,d.data(),d.size()); return; }
    if (auto* a=dyn_cast<ConstantStruct>(c)) { auto* L=DL->getStructLayout(a->getType()); for (unsigned i=0;i<a->getNumOperands();i++) initObj(o,a->getOperand(i),off+L->getElementOffset(i)); return; }
    if (auto* a=dyn_cast<ConstantArray>(c)) { u64 z=DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i=0;i<a->getNumOperands();i++) initObj(o,a->getOperand(i),off+i*z); return; }
    auto ls=flatT(c->getType()); auto vs=cval(c); for (size_t i=0;i<ls.size();i++) { u128 v=vs[i].e?vs[i].e->v:vs[i].c; for (unsigned b=0;b<ls[i].bytes;b++) o->d[off+ls[i].off+b]=(uint8_t)(v>>(8*b)); } }
  void setup() {
    DL=&M->getDataLayout();
    std::vector<GlobalVariable*> gs;
    for (auto& F: *M) { if (F.isIntrinsic()) continue; gv(&F); }
    for (auto& g: M->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 z=DL->getTypeAllocSize(g.getValueType()); if (!g.hasInitializer()) z=std::max<u64>(z,64); if (z>OMASK) die("global too large");
      Obj* o=init.mem.alloc(z,K_GLOBAL); memset(o->d,0,z); gaddr[&g]=(u64)o->id<<OB; if (g.isThreadLocal()) gtls[(u64)o->id<<OB]=&g; o->what=strdup(g.getName().str().c_str()); gs.push_back(&g); }
    for (auto* g: gs) if (g->hasInitializer()) { Obj* o=init.mem.getW(gaddr[g]>>OB); initObj(o,g->getInitializer(),0); if (g->isConstant()) o->kind=K_CONST; }
  }
  // every use of a thread-local variable goes through llvm.threadlocal.address (clang uses the variable itself for its guard and its initialisation)
  static bool usesTls(Constant* c) { if (auto* g=dyn_cast<GlobalVariable>(c)) return g->isThreadLocal(); if (isa<ConstantExpr>(c)||isa<ConstantAggregate>(c)) for (auto& o: c->operands()) if (usesTls(cast<Constant>(o))) return true; return false; }
  void fixTls(Function* F) {
    std::vector<Instruction*> w; for (auto& B: *F) for (auto& I: B) w.push_back(&I);
    while (!w.empty()) { Instruction* I=w.back(); w.pop_back(); if (auto* II=dyn_cast<IntrinsicInst>(I)) if (II->getIntrinsicID()==Intrinsic::threadlocal_address) continue;
      for (unsigned i=0;i<I->getNumOperands();i++) { auto* c=dyn_cast<Constant>(I->getOperand(i)); if (!c||!usesTls(c)) continue; Instruction* at=I; if (auto* P=dyn_cast<PHINode>(I)) at=P->getIncomingBlock(i)->getTerminator();
        Instruction* n; if (auto* ce=dyn_cast<ConstantExpr>(c)) { n=ce->getAsInstruction(); n->insertBefore(at); w.push_back(n); } else if (auto* g=dyn_cast<GlobalVariable>(c)) { auto* fn=Intrinsic::getDeclaration(M,Intrinsic::threadlocal_address,{g->getType()}); n=CallInst::Create(fn->getFunctionType(),fn,{g},"",at); } else die("thread-local in an aggregate");
        if (auto* P=dyn_cast<PHINode>(I)) { auto* b=P->getIncomingBlock(i); for (unsigned j=0;j<P->getNumIncomingValues();j++) if (P->getIncomingBlock(j)==b) P->setIncomingValue(j,n); } else I->setOperand(i,n); } } }
  // ---------------------------------------------------------------- decode
  void decode(Fn* x) {
    if (!x->f->isDeclaration()) fixTls(x->f);
    x->decoded=true; Function* F=x->f; if (auto* SP=F->getSubprogram()) x->rt=SP->getUnit()->getFilename().ends_with("engine/rt.cpp")&&(SP->getFilename().ends_with("engine/rt.cpp"));
    std::unordered_map<const Value*,int> slot; std::unordered_map<const BasicBlock*,uint32_t> bpc; int nr=0;
    std::map<std::pair<u64,const Expr*>,int> cidx;
    auto addC=[&](Val v)->int { auto k=std::make_pair(v.c,v.e); auto it=cidx.find(k); if (it!=cidx.end()) return it->second; x->consts.push_back(v); return cidx[k]=-(int)x->consts.size(); };
    for (auto& A: F->args()) { slot[&A]=nr; unsigned n=nslots(A.getType()); x->argSlot.push_back(nr); x->argN.push_back(n); nr+=n; }
    for (auto& B: *F) for (auto& I: B) { unsigned n=nslots(I.getType()); if (n) { slot[&I]=nr; nr+=n; } }
    x->nregs=nr;
    auto opnd=[&](const Value* v)->int { if (auto* c=dyn_cast<Constant>(v)) { auto vs=cval(c); if (vs.empty()) return 0; if (vs.size()==1) return addC(vs[0]); // aggregates: consecutive consts
          int base=-(int)x->consts.size()-1; for (auto& q: vs) x->consts.push_back(q); return base; }
        if (isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) return 0; auto it=slot.find(v); if (it==slot.end()) die("operand"); return it->second; };
    std::vector<std::tuple<int,const BasicBlock*,const BasicBlock*>> fix;   // edge, from, to
    auto edge=[&](const BasicBlock* a, const BasicBlock* b)->int { x->edges.push_back({}); fix.push_back({(int)x->edges.size()-1,a,b}); return x->edges.size()-1; };
    for (auto& B: *F) {
      bpc[&B]=x->code.size();
      for (auto& I: B) {
        if (isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue;
        Inst o; o.src=&I; o.dst=slot.count(&I)?slot[&I]:-1; Type* T=I.getType(); o.w=(T->isSized()&&!T->isAggregateType())?DL->getTypeSizeInBits(T->getScalarType()):0;
        o.n=std::max(1u,nslots(T));
        auto refcount=[&]()->bool { // reference-count updates of shared_ptr, intrusive_ptr, exception_ptr: see DESIGN
          for (const DILocation* L=I.getDebugLoc().get(); L; L=L->getInlinedAt()) { auto* SP=L->getScope()->getSubprogram(); std::string n=SP?SP->getName().str()+" "+SP->getLinkageName().str():""; std::string fl=L->getFilename().str();
            if (fl.find("shared_ptr_base.h")!=std::string::npos||fl.find("atomicity.h")!=std::string::npos||fl.find("sp_counted_base")!=std::string::npos||fl.find("atomic_count")!=std::string::npos||n.find("intrusive_ptr")!=std::string::npos) return true; }
          if (x->rt) return true; std::string n=x->dname; return n.find("_Sp_counted")!=std::string::npos||n.find("sp_counted_base")!=std::string::npos||n.find("__exchange_and_add")!=std::string::npos||n.find("__atomic_add")!=std::string::npos||n.find("shared_count")!=std::string::npos||n.find("exception_ptr::")!=std::string::npos||n.find("__cxa_")!=std::string::npos; };
        switch (I.getOpcode()) {
          case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            static std::map<unsigned,EK> k={{Instruction::Add,E_ADD},{Instruction::Sub,E_SUB},{Instruction::Mul,E_MUL},{Instruction::UDiv,E_UDIV},{Instruction::SDiv,E_SDIV},{Instruction::URem,E_UREM},{Instruction::SRem,E_SREM},{Instruction::And,E_AND},{Instruction::Or,E_OR},{Instruction::Xor,E_XOR},{Instruction::Shl,E_SHL},{Instruction::LShr,E_LSHR},{Instruction::AShr,E_ASHR}};
            o.op=O_BIN; o.sub=k[I.getOpcode()]; o.a=opnd(I.getOperand(0)); o.b=opnd(I.getOperand(1)); break; }
          case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: o.op=O_FBIN; o.sub=I.getOpcode(); o.a=opnd(I.getOperand(0)); o.b=opnd(I.getOperand(1)); break;
          case Instruction::FNeg: o.op=O_FNEG; o.a=opnd(I.getOperand(0)); break;
          case Instruction::ICmp: o.op=O_ICMP; o.sub=cast<CmpInst>(I).getPredicate(); o.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); o.a=opnd(I.getOperand(0)); o.b=opnd(I.getOperand(1)); break;
          case Instruction::FCmp: o.op=O_FCMP; o.sub=cast<CmpInst>(I).getPredicate(); o.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); o.a=opnd(I.getOperand(0)); o.b=opnd(I.getOperand(1)); break;
          case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: o.op=O_CAST; o.sub=I.getOpcode(); o.a=opnd(I.getOperand(0)); o.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); break;
          case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: o.op=O_FCAST; o.sub=I.getOpcode(); o.a=opnd(I.getOperand(0)); o.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); break;
          case Instruction::BitCast: { unsigned n1=nslots(I.getOperand(0)->getType()); o.a=opnd(I.getOperand(0)); o.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); if (n1==o.n) o.op=O_MOV; else { o.op=O_CAST; o.sub=255; o.x=n1; } break; }
          case Instruction::Freeze: o.op=O_MOV; o.a=opnd(I.getOperand(0)); break;
          case Instruction::Select: o.op=O_SEL; o.n=T->isPointerTy(); o.a=opnd(I.getOperand(0)); o.b=opnd(I.getOperand(1)); o.c=opnd(I.getOperand(2)); o.w2=I.getOperand(0)->getType()->isVectorTy(); x->leaves.push_back(flatT(T)); o.x=x->leaves.size()-1; break;
          case Instruction::Load: { auto& L=cast<LoadInst>(I); o.op=O_LOAD; o.a=opnd(L.getPointerOperand()); o.atomic=L.isAtomic(); if(o.atomic) { o.refc=refcount(); o.ord=ordOf(L.getOrdering()); } x->leaves.push_back(flatT(T)); o.x=x->leaves.size()-1; o.w2=T->isPointerTy(); break; }
          case Instruction::Store: { auto& L=cast<StoreInst>(I); o.op=O_STORE; o.a=opnd(L.getPointerOperand()); o.b=opnd(L.getValueOperand()); o.atomic=L.isAtomic(); if(o.atomic) { o.refc=refcount(); o.ord=ordOf(L.getOrdering()); } Type* V=L.getValueOperand()->getType(); x->leaves.push_back(flatT(V)); o.n=nslots(V); o.x=x->leaves.size()-1; o.w2=V->isPointerTy(); break; }
          case Instruction::AtomicRMW: { auto& L=cast<AtomicRMWInst>(I); o.op=O_RMW; o.sub=L.getOperation(); o.ord=4|ordOf(L.getOrdering()); o.atomic=true; o.refc=refcount(); o.a=opnd(L.getPointerOperand()); o.b=opnd(L.getValOperand()); break; }
          case Instruction::AtomicCmpXchg: { auto& L=cast<AtomicCmpXchgInst>(I); o.op=O_CAS; o.ord=4|ordOf(L.getSuccessOrdering())|ordOf(L.getFailureOrdering()); o.atomic=true; o.refc=refcount(); o.a=opnd(L.getPointerOperand()); o.b=opnd(L.getCompareOperand()); o.c=opnd(L.getNewValOperand()); o.w=DL->getTypeSizeInBits(L.getNewValOperand()->getType()); break; }
          case Instruction::Fence: o.op=O_FENCE; o.ord=ordOf(cast<FenceInst>(I).getOrdering()); break;
          case Instruction::Alloca: { auto& L=cast<AllocaInst>(I); o.op=O_ALLOCA; o.a=opnd(L.getArraySize()); o.x=DL->getTypeAllocSize(L.getAllocatedType()); o.w2=DL->getTypeSizeInBits(L.getArraySize()->getType()); break; }
          case Instruction::GetElementPtr: { GepI g; g.off=0; auto& G=cast<GetElementPtrInst>(I); if (T->isVectorTy()) die("vector gep");
            for (auto it=gep_type_begin(G), e=gep_type_end(G); it!=e; ++it) { Value* ix=it.getOperand(); if (auto* S=it.getStructTypeOrNull()) g.off+=DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
              else { u64 z=DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci=dyn_cast<ConstantInt>(ix)) g.off+=(u64)(ci->getSExtValue()*(i64)z); else g.idx.push_back({(i64)opnd(ix),(i64)z,(i64)DL->getTypeSizeInBits(ix->getType())}); } }
            o.op=O_GEP; o.a=opnd(G.getPointerOperand()); x->geps.push_back(g); o.x=x->geps.size()-1; break; }
          case Instruction::Br: { auto& L=cast<BranchInst>(I); if (L.isUnconditional()) { o.op=O_BR; o.b=edge(&B,L.getSuccessor(0)); } else { o.op=O_CBR; o.a=opnd(L.getCondition()); o.b=edge(&B,L.getSuccessor(0)); o.c=edge(&B,L.getSuccessor(1)); } break; }
          case Instruction::Switch: { auto& L=cast<SwitchInst>(I); SwI w; w.def=edge(&B,L.getDefaultDest()); std::map<const BasicBlock*,int> m; m[L.getDefaultDest()]=w.def; for (auto& c: L.cases()) { auto* d=c.getCaseSuccessor(); if (!m.count(d)) m[d]=edge(&B,d); const APInt& a=c.getCaseValue()->getValue(); u128 v=a.getRawData()[0]; if (a.getBitWidth()>64) v|=(u128)a.getRawData()[1]<<64; w.cases.push_back({v,m[d]}); } for (auto& p:m) w.edges.push_back(p.second); o.op=O_SWITCH; o.a=opnd(L.getCondition()); o.w2=DL->getTypeSizeInBits(L.getCondition()->getType()); x->sws.push_back(w); o.x=x->sws.size()-1; break; }
          case Instruction::Ret: { auto& L=cast<ReturnInst>(I); o.op=O_RET; o.n=0; if (L.getReturnValue()) { o.a=opnd(L.getReturnValue()); o.n=nslots(L.getReturnValue()->getType()); } break; }
          case Instruction::Unreachable: o.op=O_UNREACH; break;
          case Instruction::Resume: o.op=O_RESUME; o.a=opnd(I.getOperand(0)); break;
          case Instruction::LandingPad: { auto& L=cast<LandingPadInst>(I); LpI p; p.cleanup=L.isCleanup(); for (unsigned i=0;i<L.getNumClauses();i++) { Constant* c=L.getClause(i); if (L.isCatch(i)) p.cl.push_back({0,cval(c)[0].c}); else { std::vector<u64> v; for (auto& q: cval(c)) v.push_back(q.c); if (isa<ConstantAggregateZero>(c) && cast<ArrayType>(c->getType())->getNumElements()==0) v.clear(); p.filt.push_back(v); p.cl.push_back({1,p.filt.size()-1}); } } o.op=O_LPAD; x->lps.push_back(p); o.x=x->lps.size()-1; break; }
          case Instruction::ExtractValue: { auto& L=cast<ExtractValueInst>(I); Type* A=L.getAggregateOperand()->getType(); int off=0; for (unsigned ix: L.getIndices()) { if (auto* S=dyn_cast<StructType>(A)) { for (unsigned i=0;i<ix;i++) off+=nslots(S->getElementType(i)); A=S->getElementType(ix); } else { A=cast<ArrayType>(A)->getElementType(); off+=ix*nslots(A); } } int b=opnd(L.getAggregateOperand()); o.op=O_MOV; o.a=b<0?b-off:b+off; break; }
          case Instruction::InsertValue: { auto& L=cast<InsertValueInst>(I); Type* A=L.getAggregateOperand()->getType(); int off=0; for (unsigned ix: L.getIndices()) { if (auto* S=dyn_cast<StructType>(A)) { for (unsigned i=0;i<ix;i++) off+=nslots(S->getElementType(i)); A=S->getElementType(ix); } else { A=cast<ArrayType>(A)->getElementType(); off+=ix*nslots(A); } }
            Inst m=o; m.op=O_MOV; m.a=opnd(L.getAggregateOperand()); x->code.push_back(m); o.op=O_MOV; o.dst=o.dst+off; o.a=opnd(L.getInsertedValueOperand()); o.n=nslots(L.getInsertedValueOperand()->getType()); break; }
          case Instruction::ExtractElement: o.op=O_EXEL; o.a=opnd(I.getOperand(0)); o.b=opnd(I.getOperand(1)); break;
          case Instruction::InsertElement: o.op=O_INSEL; o.a=opnd(I.getOperand(0)); o.b=opnd(I.getOperand(1)); o.c=opnd(I.getOperand(2)); break;
          case Instruction::ShuffleVector: { auto& L=cast<ShuffleVectorInst>(I); int a=opnd(I.getOperand(0)), b=opnd(I.getOperand(1)); int n1=nslots(I.getOperand(0)->getType()); auto mask=L.getShuffleMask(); for (size_t i=0;i<mask.size();i++) { Inst m=o; m.op=O_MOV; m.n=1; m.dst=o.dst+i; int k=mask[i]<0?0:mask[i]; if (k<n1) m.a=a<0?a-k:a+k; else { k-=n1; m.a=b<0?b-k:b+k; } x->code.push_back(m); } continue; }
          case Instruction::Call: case Instruction::Invoke: {
            auto& L=cast<CallBase>(I); 
            if (L.isInlineAsm()) { continue; }
            CallI c; Value* cv=L.getCalledOperand()->stripPointerCasts(); if (auto* al=dyn_cast<GlobalAlias>(cv)) cv=const_cast<Value*>((const Value*)al->getAliaseeObject());
            c.f=dyn_cast<Function>(cv); 
            if (c.f && c.f->isIntrinsic()) { auto id=c.f->getIntrinsicID(); 
              switch (id) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::pseudoprobe:
                  if (auto* iv=dyn_cast<InvokeInst>(&I)) { o.op=O_BR; o.b=edge(&B,iv->getNormalDest()); break; } continue; 
                default: break; } }
            if (!c.f) c.fp=opnd(L.getCalledOperand());
            if (c.f && c.f->isIntrinsic() && c.f->getIntrinsicID()==Intrinsic::eh_typeid_for) { o.op=O_MOV; o.n=1; o.a=addC(C(typeId(cval(cast<Constant>(L.getArgOperand(0)))[0].c))); break; }
            for (unsigned i=0;i<L.arg_size();i++) { Value* a=L.getArgOperand(i); c.args.push_back({opnd(a),(int)nslots(a->getType())}); c.aw.push_back(a->getType()->isSized()&&!a->getType()->isAggregateType()?DL->getTypeSizeInBits(a->getType()->getScalarType()):0); c.byval.push_back(L.isByValArgument(i)?DL->getTypeAllocSize(L.getParamByValType(i)):0); }
            c.rets=nslots(T); if (auto* iv=dyn_cast<InvokeInst>(&I)) { c.normal=edge(&B,iv->getNormalDest()); c.unwind=edge(&B,iv->getUnwindDest()); }
            o.op=O_CALL; x->calls.push_back(c); o.x=x->calls.size()-1; break; }
          case Instruction::VAArg: die("va_arg");
          default: die(std::string("unsupported instruction ")+I.getOpcodeName()+" in "+x->dname); }
        x->code.push_back(o);
      } }
    for (auto& [e,a,b]: fix) { x->edges[e].pc=bpc[b]; for (auto& P: b->phis()) { const Value* v=P.getIncomingValueForBlock(a); unsigned n=nslots(P.getType()); int d=slot[&P], s0=opnd(v); for (unsigned i=0;i<n;i++) { int so=s0<0?s0-(int)i:s0+(int)i; if (so!=d+(int)i) x->edges[e].cp.push_back({d+i,so}); } } }
  }
  int typeId(u64 ti) { if (!ti) { ti=1; } auto it=typeIds.find(ti); if (it!=typeIds.end()) return it->second; typeIdRev.push_back(ti); return typeIds[ti]=typeIdRev.size()-1; }

  // ---------------------------------------------------------------- state handling
  inline Val get(int i) const { return i>=0 ? R[i] : fn->consts[-i-1]; }
  void load() { t=&s->th[s->cur]; if (t->fr.empty()) { f=nullptr; return; } Ref<Frame>& r=t->fr.back(); if (r->refs>1) { Frame* n=new Frame(*r.p); n->refs=0; r=Ref<Frame>(n); } f=r.p; R=f->R.data(); fn=f->fn; }
  std::string where(const Instruction* I) { std::string r; if (I) for (const DILocation* L=I->getDebugLoc().get(); L; L=L->getInlinedAt()) { if (!r.empty()) break; std::string fl=L->getFilename().str(); r=fl.substr(fl.rfind('/')+1)+":"+std::to_string(L->getLine()); } return r; }
  std::string shorten(std::string d) { // keep the function name, cut template noise
    std::string o; int dep=0; for (char c: d) { if (c=='<') { if (!dep) o+="<>"; ++dep; } else if (c=='>') { if (dep) --dep; else o+=c; } else if (!dep) o+=c; } if (o.size()>140) o=o.substr(0,140)+"..."; return o; }
  std::string backtrace(Thread& th) { std::string r; for (size_t i=th.fr.size(); i-->0;) { Frame* q=th.fr[i].p; const Instruction* I=q->pc<q->fn->code.size()?q->fn->code[q->pc].src:nullptr; if (r.size()>3500) { r+="...\n"; break; } r+="  "+shorten(q->fn->dname)+" "+where(I)+"\n"; } return r; }
  State* fork() { forks++; State* n=new State(*s); n->depth++; return n; }
  void pushData(State* n) { Node d; d.sched=false; d.s=n; stack.push_back(d); }
  // decides a symbolic condition; the other feasible side is queued and re-executes the current instruction
  bool branch(const Expr* c) {
    if (EB::isC(c)) return c->v!=0;
    bool v=eb.eval(c,*s->m)!=0; const Expr* other=v?eb.Not(c):c; ModelP om;
    int r=solver->check(s->pc,other,s->m,&om);
    if (r<0) { incomplete=true; incWhy.insert("solver timeout"); }
    if (r==1) { State* n=fork(); n->pc.push_back(other); n->m=om; pushData(n); load(); s->pc.push_back(v?c:eb.Not(c)); }
    return v; }
  u64 conc(Val v, unsigned w) { if (!v.e) return v.c; if (EB::isC(v.e)) return (u64)v.e->v; u64 x=(u64)eb.eval(v.e,*s->m); branch(eb.bin(E_EQ,v.e,eb.cst(x,w))); return x; }
  u64 argc_(CallI& c, unsigned i) { return conc(get(c.args[i].first),c.aw[i]); }
  [[noreturn]] void violation(const std::string& kind, const std::string& msg, ModelP m=nullptr) {
    if (!m) m=s->m; Violation v; v.kind=kind; v.msg=msg;
    if (s->cur>=0 && s->cur<(int)s->th.size()) v.stack=backtrace(s->th[s->cur]);
    for (auto& th: s->th) if (th.id!=s->cur && th.st!=T_DONE) { std::string b=backtrace(th); if (b.size()>1500) b.resize(1500); v.stack+=" [thread "+std::to_string(th.id)+" "+pks(th)+"]\n"+b; }
    for (uint32_t i: s->vars) v.vars.push_back({eb.vars[i].name,m->get(i)&msk(eb.vars[i].w)}); v.sched=s->sched; v.notes=s->reach;
    if (opt.verbose||replaying) { fprintf(stderr,"VIOL %s: %s\n%s",kind.c_str(),msg.c_str(),v.stack.c_str()); for (auto&p:v.vars) fprintf(stderr,"   %s=%llu\n",p.first.c_str(),(unsigned long long)p.second); }
    bool dup=false; for (auto& o: viol) if (o.kind==kind&&o.msg==msg) dup=true;
    if (!dup) viol.push_back(v);
    throw Kill(); }
  static std::string pks(Thread& th) { static const char* n[]={"start","read","write","lock","unlock","condwait","woken","block","yield","join","sleep","other"}; return th.st==T_DONE?"done":th.st==T_RUN?"running":n[th.pk]; }
  // ---------------------------------------------------------------- memory access
  Obj* chk(u64 addr, u64 n, bool wr) {
    u64 id=addr>>OB, off=addr&OMASK; 
    if (id<64) violation("memory",std::string("null or wild pointer ")+(wr?"write":"read")+" at "+hex(addr));
    Obj* o=s->mem.get(id); if (!o) violation("memory",std::string(id<s->mem.next?"use after free/scope: ":"wild pointer: ")+(wr?"write":"read")+" at "+hex(addr));
    if (o->kind==K_FN) violation("memory","data access to a function");
    if (off+n>o->size) violation("memory",std::string("out of bounds ")+(wr?"write":"read")+" of "+std::to_string(n)+" at offset "+std::to_string(off)+" of object of size "+std::to_string(o->size)+" "+o->what);
    if (wr) { if (o->kind==K_CONST) violation("memory","write to constant memory"); o=s->mem.getW(id); }
    if (opt.races && s->th.size()>1 && s->window && o->kind!=K_CONST && !inAtomic && !(fn&&fn->rt)) raceCheck(o,off,n,wr);
    return o; }
  bool inAtomic=false;
  void raceCheck(Obj*& o, u64 off, u64 n, bool wr) {
    o=s->mem.getW(o->id); if (!o->races) o->races=Ref<Races>(new Races); else if (o->races->refs>1) { Races* q=new Races(*o->races.p); q->refs=0; o->races=Ref<Races>(q); }
    int me=s->cur; const VC& vc=t->hv; uint32_t ep=vc.c[me];
    for (u64 g=off; g<off+n; ++g) { RaceCell& c=o->races->m[g];
      if (c.wt!=255 && c.wt!=me && vc.c[c.wt]<c.we) violation("data race",std::string("unsynchronised ")+(wr?"write":"read")+" after write by thread "+std::to_string(c.wt));
      if (wr) { for (int q=0;q<MAXT;q++) if (q!=me && c.r[q] && vc.c[q]<c.r[q]) violation("data race","unsynchronised write after read by thread "+std::to_string(q)); c.wt=me; c.we=ep; }
      else c.r[me]=ep; } }
  static std::string hex(u64 v) { char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); return b; }
  Val ldBytes(Obj* o, u64 off, unsigned bits, unsigned bytes) {
    if (o->s) { bool any=false; for (unsigned i=0;i<bytes;i++) if (o->s[off+i]) { any=true; break; }
      if (any) { const Expr* e=nullptr; const Expr* b0=o->s[off];
        if (b0) { const Expr* X=b0->k==E_EXTRACT?b0->a:b0; unsigned lo=b0->k==E_EXTRACT?(unsigned)b0->v:0; bool ok=lo+bits<=X->w && b0->w==8; for (unsigned i=1;i<bytes&&ok;i++) { const Expr* b=o->s[off+i]; ok=b&&b->k==E_EXTRACT&&b->a==X&&(unsigned)b->v==lo+8*i; } if (ok) return mk(eb.extract(X,lo,bits)); }
        for (unsigned i=0;i<bytes;i++) { const Expr* b=o->s[off+i]?o->s[off+i]:eb.cst(o->d[off+i],8); e=e?eb.concat(b,e):b; } if (e->w!=bits) e=eb.extract(e,0,bits); return mk(e); } }
    if (bytes<=8) { u64 v=0; memcpy(&v,o->d+off,bytes); return C(v&msk(bits)); }
    u128 v=0; memcpy(&v,o->d+off,std::min(bytes,16u)); return {0,eb.cst(v,bits)}; }
  void stBytes(Obj* o, u64 off, Val v, unsigned bits, unsigned bytes) {
    if (!v.e) { memcpy(o->d+off,&v.c,bytes); if (o->s) memset(o->s+off,0,sizeof(Expr*)*bytes); return; }
    const Expr* e=v.e; if (EB::isC(e)) { u128 x=e->v; memcpy(o->d+off,&x,std::min(bytes,16u)); if (o->s) memset(o->s+off,0,sizeof(Expr*)*bytes); return; }
    if (e->w<bytes*8) e=eb.zext(e,bytes*8);
    o->needSym(); for (unsigned i=0;i<bytes;i++) { const Expr* b=eb.extract(e,8*i,8); if (EB::isC(b)) { o->s[off+i]=nullptr; o->d[off+i]=(uint8_t)b->v; } else o->s[off+i]=b; } }
  u64 rd(u64 a, unsigned n=8) { Obj* o=chk(a,n,false); return conc(ldBytes(o,a&OMASK,n*8,n),n*8); }
  void wrt(u64 a, u64 v, unsigned n=8) { Obj* o=chk(a,n,true); stBytes(o,a&OMASK,C(v),n*8,n); }
  std::string cstr(u64 a) { std::string r; for (int i=0;i<4000;i++) { Obj* o=chk(a,1,false); Val v=ldBytes(o,a&OMASK,8,1); char c=(char)(v.e?eb.eval(v.e,*s->m):v.c); if (!c) break; r+=c; ++a; } return r; }
  u64 newObj(u64 z, uint8_t kind, uint8_t ak, uint8_t fill) { if (z>OMASK) { incomplete=true; incWhy.insert("allocation larger than 4 MB"); violation("memory","allocation of "+std::to_string(z)+" bytes (more than the 4 MB the memory model holds)"); } Obj* o=s->mem.alloc(z,kind); o->ak=ak; memset(o->d,fill,z); return (u64)o->id<<OB; }
  void freeObj(u64 a, uint8_t ak) { if (!a) return; u64 id=a>>OB; Obj* o=id<64?nullptr:s->mem.get(id); if (!o) violation("memory","double free or free of a wild pointer "+hex(a)); if (o->kind!=K_HEAP||(a&OMASK)) violation("memory","free of a non-heap or interior pointer"); if (o->ak!=ak) violation("memory","allocation/deallocation mismatch"); 
    if (opt.races && s->th.size()>1 && s->window) { inAtomic=false; Obj* q=o; raceCheck(q,0,q->size?q->size:1,true); }
    released(id); s->mem.release(id); }
  // address leaves of an ite-of-constants pointer
  bool addrLeaves(const Expr* e, std::vector<u64>& v) { if (EB::isC(e)) { v.push_back((u64)e->v); return v.size()<=64; } if (e->k!=E_ITE) return false; return addrLeaves(e->b,v)&&addrLeaves(e->c,v); }
  const Expr* iteLoad(const Expr* a, const Leaf& l) { if (EB::isC(a)) { u64 ad=(u64)a->v+l.off; Obj* o=chk(ad,l.bytes,false); return ex(ldBytes(o,ad&OMASK,l.bits,l.bytes),l.bits); } return eb.ite(a->a,iteLoad(a->b,l),iteLoad(a->c,l)); }
  bool allValid(const std::vector<u64>& v, u64 n) { for (u64 a: v) { Obj* o=(a>>OB)<64?nullptr:s->mem.get(a>>OB); if (!o||o->kind==K_FN||(a&OMASK)+n>o->size) return false; } return true; }

  // ---------------------------------------------------------------- calls
  void enter(Fn* g, const std::vector<Val>& args, const std::vector<Val>* va=nullptr) {
    if (g->f->isDeclaration()) violation("engine","call of unmodelled external function "+g->name);
    if (!g->decoded) decode(g);
    g->execs++; Frame* n=new Frame; n->fn=g; n->R.resize(g->nregs); for (size_t i=0;i<args.size();i++) n->R[i]=args[i]; if (va) n->va=*va; t->fr.push_back(Ref<Frame>(n)); if (t->fr.size()>3000) violation("memory","call stack exhausted (recursion deeper than 3000)"); load(); }
  void popFrame() { for (uint32_t id: f->al) { released(id); s->mem.release(id); } t->fr.pop_back(); }
  void take(int e) { Edge& E=fn->edges[e]; if (E.cp.size()==1) R[E.cp[0].first]=get(E.cp[0].second); else if (!E.cp.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto& p: E.cp) tmp.push_back(get(p.second)); for (size_t i=0;i<E.cp.size();i++) R[E.cp[i].first]=tmp[i]; } f->pc=E.pc; }
  void retTo(const Val* v, unsigned n) { // callee frame already popped; f = caller at call inst
    load(); if (!f) return; Inst& I=fn->code[f->pc]; CallI& c=fn->calls[I.x]; for (unsigned i=0;i<n && I.dst>=0;i++) R[I.dst+i]=v[i]; if (c.normal>=0) take(c.normal); else f->pc++; }
  void biRet(const Inst& I, CallI& c, Val v) { if (I.dst>=0 && c.rets>0) R[I.dst]=v; if (c.normal>=0) take(c.normal); else f->pc++; }
  void biRet(const Inst& I, CallI& c) { if (c.normal>=0) take(c.normal); else f->pc++; }
  void doCall(const Inst& I) {
    CallI& c=fn->calls[I.x]; Function* F=c.f; Fn* g=nullptr;
    if (F) { if (F->isIntrinsic()) { intrinsic(I,c,F->getIntrinsicID()); return; }
      if (!c.resolved) { c.target=getFn(F); auto it=bi.find(c.target->name); if (it!=bi.end()) c.bi=it->second; c.resolved=true; }
      if (c.bi) { c.bi(*this,I,c); return; } g=c.target; }
    else { u64 a=conc(get(c.fp),64); auto it=fnByAddr.find(a); if (it==fnByAddr.end()) violation("memory","call through an invalid function pointer "+hex(a)); g=it->second; auto b=bi.find(g->name); if (b!=bi.end()) { b->second(*this,I,c); return; } }
    static std::vector<Val> args; args.clear(); std::vector<Val> va; size_t np=g->f->arg_size();
    for (size_t i=0;i<c.args.size();i++) { int o=c.args[i].first; if (i>=np) { for (int k=0;k<c.args[i].second;k++) va.push_back(get(o<0?o-k:o+k)); continue; }
      if (c.byval[i]) { u64 p=conc(get(o),64); u64 z=c.byval[i]; u64 q=newObj(z,K_STACK,0,0); copy(q,p,z); args.push_back(C(q)); pendingByval.push_back(q>>OB); continue; }
      for (int k=0;k<c.args[i].second;k++) args.push_back(get(o<0?o-k:o+k)); }
    auto bv=pendingByval; pendingByval.clear(); enter(g,args,va.empty()?nullptr:&va); for (u64 id: bv) f->al.push_back(id); }
  std::vector<u64> pendingByval;
  void copy(u64 d, u64 sr, u64 n) { if (!n) return; Obj* a=chk(sr,n,false); u64 so=sr&OMASK, dof=d&OMASK; Ref<Obj> keep(a); Obj* b=chk(d,n,true); a=s->mem.get(sr>>OB); memmove(b->d+dof,a->d+so,n); if (a->s) { b->needSym(); memmove(b->s+dof,a->s+so,n*sizeof(Expr*)); } else if (b->s) memset(b->s+dof,0,n*sizeof(Expr*)); }
  // ---------------------------------------------------------------- exceptions
  // header layout shared with rt.cpp: [0] type_info* [8] dtor [16] adjusted [24] refcount [32] handlers [40] next [48] primary header [56] object
  bool tiName(u64 a, u64 b) { if (a==b) return true; u64 na=rd(a+8), nb=rd(b+8); if (!na||!nb) return false; if (na==nb) return true; std::string x=cstr(na), y=cstr(nb); return x==y && x[0]!='*'; }
  std::string tiKind(u64 ti) { u64 vp=rd(ti); auto* o=s->mem.get(vp>>OB); return o?o->what:""; }
  // find dst among the bases of (ti,obj): returns number of public paths (0/1/2+), sets out
  int upcast(u64 ti, u64 obj, u64 dst, u64& out, int depth=0) {
    if (tiName(ti,dst)) { out=obj; return 1; }
    std::string k=tiKind(ti);
    if (k.find("20__si_class_type_info")!=std::string::npos) return upcast(rd(ti+16),obj,dst,out,depth+1);
    if (k.find("21__vmi_class_type_info")!=std::string::npos) { u64 n=rd(ti+20,4); int found=0; u64 res=0; for (u64 i=0;i<n;i++) { u64 b=rd(ti+24+16*i); i64 of=(i64)rd(ti+32+16*i); if (!(of&2)) continue; i64 o=of>>8; u64 bo=obj; if (obj) { if (of&1) { u64 vt=rd(obj); bo=obj+rd(vt+o); } else bo=obj+o; } u64 r; int q=upcast(b,bo,dst,r,depth+1); if (q) { if (found && res!=r) found=2; else { found=std::max(found,q); res=r; } } } out=res; return found; }
    return 0; }
  bool catches(u64 cti, u64 hdr, u64& adj) { u64 ti=rd(hdr), obj=rd(hdr+56); if (cti==0) { adj=obj; return true; }
    if (tiName(cti,ti)) { adj=obj; std::string k=tiKind(ti); if (k.find("19__pointer_type_info")!=std::string::npos) adj=rd(obj); return true; }
    std::string k=tiKind(ti); if (k.find("pointer_type_info")!=std::string::npos) { std::string k2=tiKind(cti); if (k2.find("19__pointer_type_info")!=std::string::npos) { u64 pt=rd(ti+24), ct=rd(cti+24); u64 o; if (cstr(rd(ct+8))=="v"||upcast(pt,rd(obj),ct,o)==1) { adj=rd(obj); return true; } } return false; }
    u64 o; if (upcast(ti,obj,cti,o)==1) { adj=o; return true; } return false; }
  // selector for a landing pad, 0 = cleanup only, -1 = not entered
  int match(LpI& p, u64 hdr, u64& adj) { for (auto& c: p.cl) { if (c.first==0) { if (catches(c.second,hdr,adj)) return typeId(c.second); } else { bool ok=false; for (u64 ti: p.filt[c.second]) if (catches(ti,hdr,adj)) ok=true; if (!ok) { adj=rd(hdr+56); return -1000-(int)c.second; } } } return p.cleanup?0:-1; }
  LpI* lpOf(Frame* q) { Inst& I=q->fn->code[q->pc]; if (I.op!=O_CALL) return nullptr; CallI& c=q->fn->calls[I.x]; if (c.unwind<0) return nullptr; uint32_t pc=q->fn->edges[c.unwind].pc; Inst& L=q->fn->code[pc]; if (L.op!=O_LPAD) die("unwind dest is not a landing pad"); return &q->fn->lps[L.x]; }
  void unwind(u64 hdr, bool search, bool fromCall) {
    if (search) { bool ok=false; u64 adj; for (size_t i=t->fr.size(); i-->0;) { if (i==t->fr.size()-1 && !fromCall) continue; LpI* p=lpOf(t->fr[i].p); if (p) { int q=match(*p,hdr,adj); if (q>0||q<=-1000) { ok=true; break; } } }
      if (!ok) violation("terminate","exception of type "+dem("_ZTS"+cstr(rd(rd(hdr)+8)))+" is not caught: std::terminate"); }
    if (!fromCall) { popFrame(); load(); }
    while (f) { LpI* p=lpOf(f); if (p) { u64 adj=0; int q=match(*p,hdr,adj); if (q!=-1) { if (q!=0) wrt(hdr+16,adj); load(); Inst& I=fn->code[f->pc]; CallI& c=fn->calls[I.x]; take(c.unwind); Inst& L=fn->code[f->pc]; if (L.dst>=0) { R[L.dst]=C(hdr); R[L.dst+1]=C((uint32_t)(q<=-1000?-1:q)); } f->pc++; return; } }
      popFrame(); load(); }
    violation("terminate","exception left the thread's start function"); }
  // ---------------------------------------------------------------- floating point (concrete)
  double fp(Val v, unsigned w) { u64 b=conc(v,w); if (v.e) { incomplete=true; incWhy.insert("symbolic floating point concretised"); } if (w==32) { float x; uint32_t q=b; memcpy(&x,&q,4); return x; } if (w!=64) die("fp width"); double d; memcpy(&d,&b,8); return d; }
  Val fpv(double d, unsigned w) { if (w==32) { float x=(float)d; uint32_t q; memcpy(&q,&x,4); return C(q); } u64 b; memcpy(&b,&d,8); return C(b); }
#include "exec.inc"
#include "sched.inc"
#include "builtins.inc"
};
#include "main.inc"
