  // ---------------------------------------------------------------- instructions
  Val binop(EK k, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w<=64) { u64 m=msk(w); switch (k) {
      case E_ADD: return C((a.c+b.c)&m); case E_SUB: return C((a.c-b.c)&m); case E_MUL: return C((a.c*b.c)&m); case E_AND: return C(a.c&b.c); case E_OR: return C(a.c|b.c); case E_XOR: return C(a.c^b.c);
      case E_SHL: return C(b.c>=w?0:(a.c<<b.c)&m); case E_LSHR: return C(b.c>=w?0:a.c>>b.c); case E_ASHR: return C((u64)(sxt(a.c,w)>>(b.c>=w?w-1:b.c))&m);
      default: break; } }
    const Expr *x=ex(a,w), *y=ex(b,w);
    if (k==E_UDIV||k==E_SDIV||k==E_UREM||k==E_SREM) { if (branch(eb.bin(E_EQ,y,eb.cst(0,w)))) violation("trap","division by zero"); }
    return mk(eb.bin(k,x,y)); }
  Val icmp(unsigned p, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) { u64 x=a.c,y=b.c; i64 p1=sxt(x,w),q1=sxt(y,w); switch (p) { case CmpInst::ICMP_EQ: return C(x==y); case CmpInst::ICMP_NE: return C(x!=y); case CmpInst::ICMP_UGT: return C(x>y); case CmpInst::ICMP_UGE: return C(x>=y); case CmpInst::ICMP_ULT: return C(x<y); case CmpInst::ICMP_ULE: return C(x<=y); case CmpInst::ICMP_SGT: return C(p1>q1); case CmpInst::ICMP_SGE: return C(p1>=q1); case CmpInst::ICMP_SLT: return C(p1<q1); default: return C(p1<=q1); } }
    const Expr *x=ex(a,w),*y=ex(b,w); switch (p) { case CmpInst::ICMP_EQ: return mk(eb.bin(E_EQ,x,y)); case CmpInst::ICMP_NE: return mk(eb.Not(eb.bin(E_EQ,x,y))); case CmpInst::ICMP_UGT: return mk(eb.bin(E_ULT,y,x)); case CmpInst::ICMP_UGE: return mk(eb.bin(E_ULE,y,x)); case CmpInst::ICMP_ULT: return mk(eb.bin(E_ULT,x,y)); case CmpInst::ICMP_ULE: return mk(eb.bin(E_ULE,x,y)); case CmpInst::ICMP_SGT: return mk(eb.bin(E_SLT,y,x)); case CmpInst::ICMP_SGE: return mk(eb.bin(E_SLE,y,x)); case CmpInst::ICMP_SLT: return mk(eb.bin(E_SLT,x,y)); default: return mk(eb.bin(E_SLE,x,y)); } }
  Val castv(unsigned k, Val a, unsigned from, unsigned to) {
    if (!a.e && from<=64 && to<=64) { if (k==Instruction::SExt) return C((u64)sxt(a.c,from)&msk(to)); return C(a.c&msk(to)); }
    const Expr* x=ex(a,from); if (to==from) return a; if (to<from) return mk(eb.extract(x,0,to)); return mk(k==Instruction::SExt?eb.sext(x,to):eb.zext(x,to)); }
  inline Val getk(int i, unsigned k) const { return get(i<0?i-(int)k:i+(int)k); }
  u64 ptr(Val v) { return v.e?conc(v,64):v.c; }
  // one visible operation: returns when the current thread may perform it
  void visible(PK k, u64 addr, u64 arg=0);
  void run() {
    load();
    for (;;) {
      Inst& I=fn->code[f->pc]; I.cov=true;
      if ((++s->steps & 0xfff)==0) { if (s->steps>opt.maxsteps) { if (getenv("ASYM_STEPFAIL")) violation("assert","step limit"); stepKills++; incomplete=true; incWhy.insert("step limit"); throw Kill(); } instrs+=0x1000; if (now()-t0>opt.maxtime) throw Kill(); }
      if (opt.dbg && s->steps>opt.dbg) { std::string q; raw_string_ostream os(q); I.src->print(os); fprintf(stderr,"[%d] %s | %s\n",s->cur,fn->name.substr(0,50).c_str(),q.c_str()); }
      switch (I.op) {
        case O_BIN: { if (I.n==1) { Val r=binop((EK)I.sub,get(I.a),get(I.b),I.w); R[I.dst]=r; } else for (unsigned k=0;k<I.n;k++) { Val r=binop((EK)I.sub,getk(I.a,k),getk(I.b,k),I.w); R[I.dst+k]=r; } f->pc++; break; }
        case O_ICMP: { for (unsigned k=0;k<I.n;k++) R[I.dst+k]=icmp(I.sub,getk(I.a,k),getk(I.b,k),I.w2); f->pc++; break; }
        case O_CAST: { if (I.sub==255) bitcastVec(I); else for (unsigned k=0;k<I.n;k++) R[I.dst+k]=castv(I.sub,getk(I.a,k),I.w2,I.w); f->pc++; break; }
        case O_MOV: { if (I.n==1) R[I.dst]=get(I.a); else for (unsigned k=0;k<I.n;k++) R[I.dst+k]=getk(I.a,k); f->pc++; break; }
        case O_SEL: { auto& L=fn->leaves[I.x]; bool pc=I.n && get(I.a).e; u64 pv=pc?conc(get(I.a),1):0; /* a pointer never depends on data: fork */ for (unsigned k=0;k<L.size();k++) { Val c=pc?C(pv):getk(I.a,I.w2?k:0); Val a=getk(I.b,k), b=getk(I.c,k); if (!c.e) R[I.dst+k]=c.c?a:b; else R[I.dst+k]=mk(eb.ite(c.e,ex(a,L[k].bits),ex(b,L[k].bits))); } f->pc++; break; }
        case O_LOAD: { Val p=get(I.a); auto& L=fn->leaves[I.x];
          if (I.atomic) { u64 a=ptr(p); curOrd=I.ord; visible(P_READ,a,I.refc); load(); inAtomic=true; Obj* o=chk(a,L[0].bytes,false); inAtomic=false; R[I.dst]=ldBytes(o,a&OMASK,L[0].bits,L[0].bytes); f->pc++; break; }
          if (p.e) { std::vector<u64> v; if (!I.w2 && addrLeaves(p.e,v) && allValid(v,L.back().off+L.back().bytes)) { for (size_t k=0;k<L.size();k++) R[I.dst+k]=mk(iteLoad(p.e,L[k])); f->pc++; break; } p=C(conc(p,64)); }
          u64 a=p.c; Obj* o=chk(a,L.empty()?0:L.back().off+L.back().bytes,false); u64 of=a&OMASK; for (size_t k=0;k<L.size();k++) R[I.dst+k]=ldBytes(o,of+L[k].off,L[k].bits,L[k].bytes); f->pc++; break; }
        case O_STORE: { u64 a=ptr(get(I.a)); auto& L=fn->leaves[I.x]; if (I.w2) conc(get(I.b),64); /* pointers in memory are concrete */ if (I.atomic) { curOrd=I.ord; visible(P_WRITE,a,I.refc); load(); inAtomic=true; }
          Obj* o=chk(a,L.empty()?0:L.back().off+L.back().bytes,true); inAtomic=false; u64 of=a&OMASK; for (size_t k=0;k<L.size();k++) stBytes(o,of+L[k].off,I.w2?C(conc(get(I.b),64)):getk(I.b,k),L[k].bits,L[k].bytes); f->pc++; break; }
        case O_RMW: { u64 a=ptr(get(I.a)); curOrd=I.ord; visible(P_WRITE,a,I.refc); load(); inAtomic=true; Obj* o=chk(a,I.w/8,true); inAtomic=false; unsigned by=I.w/8; Val old=ldBytes(o,a&OMASK,I.w,by), v=get(I.b), nv;
          switch (I.sub) { case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Add: nv=binop(E_ADD,old,v,I.w); break; case AtomicRMWInst::Sub: nv=binop(E_SUB,old,v,I.w); break; case AtomicRMWInst::And: nv=binop(E_AND,old,v,I.w); break; case AtomicRMWInst::Or: nv=binop(E_OR,old,v,I.w); break; case AtomicRMWInst::Xor: nv=binop(E_XOR,old,v,I.w); break;
            case AtomicRMWInst::Max: { Val c=icmp(CmpInst::ICMP_SGT,old,v,I.w); nv=mk(eb.ite(ex(c,1),ex(old,I.w),ex(v,I.w))); break; } case AtomicRMWInst::UMax: { Val c=icmp(CmpInst::ICMP_UGT,old,v,I.w); nv=mk(eb.ite(ex(c,1),ex(old,I.w),ex(v,I.w))); break; } default: die("atomicrmw op"); }
          stBytes(o,a&OMASK,nv,I.w,by); R[I.dst]=old; f->pc++; break; }
        case O_CAS: { u64 a=ptr(get(I.a)); curOrd=I.ord; visible(P_WRITE,a,I.refc); load(); inAtomic=true; Obj* o=chk(a,I.w/8,true); inAtomic=false; unsigned by=I.w/8; Val old=ldBytes(o,a&OMASK,I.w,by); Val cmp=get(I.b), nv=get(I.c); Val eq=(!old.e&&!cmp.e)?C(old.c==cmp.c):mk(eb.bin(E_EQ,ex(old,I.w),ex(cmp,I.w)));
          bool ok=eq.e?branch(eq.e):eq.c; if (ok) { o=chkNoRace(a); stBytes(o,a&OMASK,nv,I.w,by); } R[I.dst]=old; R[I.dst+1]=C(ok); f->pc++; break; }
        case O_FENCE: { if (I.ord&1) t->hv.join(t->acqPend); if (I.ord&2) { t->relF=t->hv; ++t->hv.c[t->id]; } f->pc++; break; }
        case O_ALLOCA: { u64 n=conc(get(I.a),I.w2); u64 p=newObj(n*I.x,K_STACK,0,0xAA); f->al.push_back(p>>OB); R[I.dst]=C(p); f->pc++; break; }
        case O_GEP: { GepI& g=fn->geps[I.x]; Val b=get(I.a); if (g.idx.empty()) { if (!b.e) { R[I.dst]=C(b.c+g.off); f->pc++; break; } }
          bool sym=b.e!=nullptr; for (auto& i: g.idx) if (get((int)i[0]).e) sym=true;
          if (!sym) { u64 r=b.c+g.off; for (auto& i: g.idx) r+=(u64)sxt(get((int)i[0]).c,i[2])*(u64)i[1]; R[I.dst]=C(r); }
          else { const Expr* r=eb.bin(E_ADD,ex(b,64),eb.cst(g.off,64)); for (auto& i: g.idx) { const Expr* x=ex(get((int)i[0]),i[2]); x=x->w<64?eb.sext(x,64):eb.extract(x,0,64); r=eb.bin(E_ADD,r,eb.bin(E_MUL,x,eb.cst(i[1],64))); } R[I.dst]=mk(r); }
          f->pc++; break; }
        case O_BR: take(I.b); break;
        case O_CBR: { Val c=get(I.a); bool v=c.e?branch(c.e):c.c; take(v?I.b:I.c); break; }
        case O_SWITCH: { SwI& w=fn->sws[I.x]; Val v=get(I.a); int e=w.def; if (!v.e) { for (auto& c: w.cases) if ((u64)c.first==v.c) { e=c.second; break; } }
          else { u128 cv=eb.eval(v.e,*s->m); e=w.def; for (auto& c: w.cases) if (c.first==cv) { e=c.second; break; }
            const Expr* cond; if (e==w.def) { cond=eb.T(); for (auto& c: w.cases) if (c.second!=w.def) cond=eb.bin(E_AND,cond,eb.Not(eb.bin(E_EQ,v.e,eb.cst(c.first,I.w2)))); }
            else { cond=eb.F(); for (auto& c: w.cases) if (c.second==e) cond=eb.bin(E_OR,cond,eb.bin(E_EQ,v.e,eb.cst(c.first,I.w2))); }
            branch(cond); }
          take(e); break; }
        case O_CALL: doCall(I); if (!f) throw Switch(); break;
        case O_RET: { std::array<Val,64> v; if (I.n>64) die("large return"); for (unsigned k=0;k<I.n;k++) v[k]=getk(I.a,k); popFrame(); if (t->fr.empty()) { f=nullptr; threadDone(); throw Switch(); } retTo(v.data(),I.n); break; }
        case O_RESUME: unwind(conc(get(I.a),64),false,false); break;
        case O_LPAD: die("landing pad reached by fallthrough");
        case O_UNREACH: violation("trap","unreachable executed");
        case O_FCMP: { bool r; double x=fp(get(I.a),I.w2), y=fp(get(I.b),I.w2); bool un=std::isnan(x)||std::isnan(y); switch (I.sub) { case CmpInst::FCMP_OEQ: r=!un&&x==y; break; case CmpInst::FCMP_ONE: r=!un&&x!=y; break; case CmpInst::FCMP_OGT: r=!un&&x>y; break; case CmpInst::FCMP_OGE: r=!un&&x>=y; break; case CmpInst::FCMP_OLT: r=!un&&x<y; break; case CmpInst::FCMP_OLE: r=!un&&x<=y; break; case CmpInst::FCMP_UEQ: r=un||x==y; break; case CmpInst::FCMP_UNE: r=un||x!=y; break; case CmpInst::FCMP_UGT: r=un||x>y; break; case CmpInst::FCMP_UGE: r=un||x>=y; break; case CmpInst::FCMP_ULT: r=un||x<y; break; case CmpInst::FCMP_ULE: r=un||x<=y; break; case CmpInst::FCMP_ORD: r=!un; break; case CmpInst::FCMP_UNO: r=un; break; default: r=I.sub==CmpInst::FCMP_TRUE; } R[I.dst]=C(r); f->pc++; break; }
        case O_FBIN: { double x=fp(get(I.a),I.w), y=fp(get(I.b),I.w), r; switch (I.sub) { case Instruction::FAdd: r=x+y; break; case Instruction::FSub: r=x-y; break; case Instruction::FMul: r=x*y; break; case Instruction::FDiv: r=x/y; break; default: r=fmod(x,y); } R[I.dst]=fpv(r,I.w); f->pc++; break; }
        case O_FNEG: R[I.dst]=fpv(-fp(get(I.a),I.w),I.w); f->pc++; break;
        case O_FCAST: { Val a=get(I.a); switch (I.sub) { case Instruction::FPTrunc: case Instruction::FPExt: R[I.dst]=fpv(fp(a,I.w2),I.w); break; case Instruction::FPToSI: R[I.dst]=C((u64)(i64)fp(a,I.w2)&msk(I.w)); break; case Instruction::FPToUI: R[I.dst]=C((u64)fp(a,I.w2)&msk(I.w)); break; case Instruction::SIToFP: R[I.dst]=fpv((double)sxt(conc(a,I.w2),I.w2),I.w); break; default: R[I.dst]=fpv((double)conc(a,I.w2),I.w); } f->pc++; break; }
        case O_EXEL: { u64 k=conc(get(I.b),64); R[I.dst]=getk(I.a,k); f->pc++; break; }
        case O_INSEL: { u64 k=conc(get(I.c),64); Val e=get(I.b); for (unsigned i=0;i<I.n;i++) R[I.dst+i]=getk(I.a,i); R[I.dst+k]=e; f->pc++; break; }
        default: die("op");
      } } }
  Obj* chkNoRace(u64 a) { inAtomic=true; Obj* o=chk(a,1,true); inAtomic=false; return o; }
  void bitcastVec(const Inst& I) { // between vectors / scalars of equal total size
    const Expr* e=nullptr; for (unsigned k=0;k<I.x;k++) { const Expr* x=ex(getk(I.a,k),I.w2); e=e?eb.concat(x,e):x; } for (unsigned k=0;k<I.n;k++) R[I.dst+k]=mk(eb.extract(e,k*I.w,I.w)); }
  void intrinsic(const Inst& I, CallI& c, Intrinsic::ID id) {
    auto A=[&](unsigned i){ return get(c.args[i].first); }; unsigned w=c.args.empty()?0:c.aw[0];
    auto E=[&](unsigned i){ return ex(A(i),c.aw[i]); };
    auto minmax=[&](unsigned p){ for (unsigned k=0;k<I.n;k++) { Val a=getk(c.args[0].first,k), b=getk(c.args[1].first,k); Val q=icmp(p,a,b,w); R[I.dst+k]=q.e?mk(eb.ite(q.e,ex(a,w),ex(b,w))):(q.c?a:b); } biNext(c); };
    auto ovf=[&](EK k, bool sg){ const Expr *x=E(0),*y=E(1); unsigned W=w*2; if (k!=E_MUL) W=w+1; const Expr *X=sg?eb.sext(x,W):eb.zext(x,W), *Y=sg?eb.sext(y,W):eb.zext(y,W); const Expr* r=eb.bin(k,X,Y); const Expr* lo=eb.extract(r,0,w); const Expr* back=sg?eb.sext(lo,W):eb.zext(lo,W); R[I.dst]=mk(lo); R[I.dst+1]=mk(eb.Not(eb.bin(E_EQ,back,r))); biNext(c); };
    switch (id) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n=conc(A(2),c.aw[2]); u64 d=ptr(A(0)), q=ptr(A(1)); load(); copy(d,q,n); biNext(c); return; }
      case Intrinsic::memset: { u64 n=conc(A(2),c.aw[2]); u64 d=ptr(A(0)); Val v=A(1); memset_(d,v,n); biNext(c); return; }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::expect_with_probability: {
        Val v=A(0); if (id==Intrinsic::threadlocal_address) v=C(tlsAddr(v.c)); R[I.dst]=v; biNext(c); return; }
      case Intrinsic::is_constant: R[I.dst]=C(0); biNext(c); return;
      case Intrinsic::objectsize: R[I.dst]=C(~0ull); biNext(c); return;
      case Intrinsic::smax: minmax(CmpInst::ICMP_SGT); return; case Intrinsic::smin: minmax(CmpInst::ICMP_SLT); return; case Intrinsic::umax: minmax(CmpInst::ICMP_UGT); return; case Intrinsic::umin: minmax(CmpInst::ICMP_ULT); return;
      case Intrinsic::uadd_with_overflow: ovf(E_ADD,false); return; case Intrinsic::sadd_with_overflow: ovf(E_ADD,true); return; case Intrinsic::usub_with_overflow: ovf(E_SUB,false); return; case Intrinsic::ssub_with_overflow: ovf(E_SUB,true); return; case Intrinsic::umul_with_overflow: ovf(E_MUL,false); return; case Intrinsic::smul_with_overflow: ovf(E_MUL,true); return;
      case Intrinsic::usub_sat: { const Expr *x=E(0),*y=E(1); R[I.dst]=mk(eb.ite(eb.bin(E_ULE,y,x),eb.bin(E_SUB,x,y),eb.cst(0,w))); biNext(c); return; }
      case Intrinsic::uadd_sat: { const Expr *x=E(0),*y=E(1),*r=eb.bin(E_ADD,x,y); R[I.dst]=mk(eb.ite(eb.bin(E_ULT,r,x),eb.cst(maskw(w),w),r)); biNext(c); return; }
      case Intrinsic::abs: { const Expr* x=E(0); R[I.dst]=mk(eb.ite(eb.bin(E_SLT,x,eb.cst(0,w)),eb.bin(E_SUB,eb.cst(0,w),x),x)); biNext(c); return; }
      case Intrinsic::bswap: { const Expr* x=E(0); const Expr* r=nullptr; for (unsigned i=0;i<w/8;i++) { const Expr* b=eb.extract(x,8*i,8); r=r?eb.concat(r,b):b; } R[I.dst]=mk(r); biNext(c); return; }
      case Intrinsic::ctpop: { const Expr* x=E(0); const Expr* r=eb.cst(0,w); for (unsigned i=0;i<w;i++) r=eb.bin(E_ADD,r,eb.zext(eb.extract(x,i,1),w)); R[I.dst]=mk(r); biNext(c); return; }
      case Intrinsic::ctlz: case Intrinsic::cttz: { const Expr* x=E(0); const Expr* r=eb.cst(w,w); for (unsigned k=0;k<w;k++) { unsigned i=id==Intrinsic::ctlz?k:w-1-k; r=eb.ite(eb.bin(E_EQ,eb.extract(x,i,1),eb.T()),eb.cst(id==Intrinsic::ctlz?w-1-i:i,w),r); } R[I.dst]=mk(r); biNext(c); return; }
      case Intrinsic::fshl: case Intrinsic::fshr: { u64 sh=conc(A(2),c.aw[2])%w; const Expr* r=eb.concat(E(0),E(1)); R[I.dst]=mk(id==Intrinsic::fshl?eb.extract(r,w-sh,w):eb.extract(r,sh,w)); biNext(c); return; }
      case Intrinsic::ptrmask: R[I.dst]=binop(E_AND,A(0),A(1),64); biNext(c); return;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation("trap","llvm.trap");
      case Intrinsic::stacksave: R[I.dst]=C(0); biNext(c); return; case Intrinsic::stackrestore: biNext(c); return;
      case Intrinsic::vastart: case Intrinsic::vaend: biNext(c); return;
      case Intrinsic::fabs: R[I.dst]=fpv(fabs(fp(A(0),w)),w); biNext(c); return; case Intrinsic::floor: R[I.dst]=fpv(floor(fp(A(0),w)),w); biNext(c); return; case Intrinsic::ceil: R[I.dst]=fpv(ceil(fp(A(0),w)),w); biNext(c); return; case Intrinsic::sqrt: R[I.dst]=fpv(sqrt(fp(A(0),w)),w); biNext(c); return;
      case Intrinsic::fmuladd: case Intrinsic::fma: R[I.dst]=fpv(fp(A(0),w)*fp(A(1),w)+fp(A(2),w),w); biNext(c); return;
      case Intrinsic::round: R[I.dst]=fpv(round(fp(A(0),w)),w); biNext(c); return; case Intrinsic::trunc: R[I.dst]=fpv(trunc(fp(A(0),w)),w); biNext(c); return;
      case Intrinsic::readcyclecounter: R[I.dst]=C(s->steps); biNext(c); return;
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: { EK k=id==Intrinsic::vector_reduce_add?E_ADD:id==Intrinsic::vector_reduce_and?E_AND:id==Intrinsic::vector_reduce_or?E_OR:E_XOR; Val r=A(0); for (int i=1;i<c.args[0].second;i++) r=binop(k,r,getk(c.args[0].first,i),w); R[I.dst]=r; biNext(c); return; }
      default: die("intrinsic "+c.f->getName().str()); } }
  void biNext(CallI& c) { if (c.normal>=0) take(c.normal); else f->pc++; }
  void memset_(u64 d, Val v, u64 n) { if (!n) return; Obj* o=chk(d,n,true); u64 of=d&OMASK; if (!v.e) { memset(o->d+of,(int)v.c,n); if (o->s) memset(o->s+of,0,n*sizeof(Expr*)); } else { o->needSym(); for (u64 i=0;i<n;i++) o->s[of+i]=v.e; } }
  u64 tlsAddr(u64 g) { auto it=t->tls.find(g); if (it!=t->tls.end()) return it->second; const GlobalVariable* v=gtls[g]; Obj* src=init.mem.get(g>>OB); Obj* o=s->mem.alloc(src->size,K_GLOBAL); memcpy(o->d,src->d,src->size); o->what=src->what; (void)v; return t->tls[g]=(u64)o->id<<OB; }
