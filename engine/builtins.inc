  // ---------------------------------------------------------------- modelled external functions
#define BI(name) bi[name]=[](Eng& e, const Inst& I, CallI& c)
#define RETV(v) do { Val r_=(v); e.biRet(I,c,r_); } while(0)
  void lockOp(const Inst& I, CallI& c, bool cond=false) {
    u64 a=argc_(c,0); visible(P_LOCK,a); load(); mlock(a); biRet(I,c,C(0)); }
  void mlock(u64 a) { inAtomic=true; u64 ow=rd(a,4), rc=rd(a+4,4); u64 kind=rd(a+16,4)&3; inAtomic=true; if (ow==(u64)s->cur+1) { if (kind==1) wrt(a+4,rc+1,4); else { inAtomic=false; violation("deadlock","mutex locked again by its owner"); } } else { if (ow) { inAtomic=false; violation("engine","lock of an owned mutex"); } wrt(a,s->cur+1,4); wrt(a+4,1,4); } inAtomic=false; load(); }
  void munlock(u64 a) { inAtomic=true; u64 ow=rd(a,4), rc=rd(a+4,4); if (ow!=(u64)s->cur+1) { inAtomic=false; violation("lock","mutex unlocked by a thread that does not own it"); } inAtomic=true; if (rc>1) wrt(a+4,rc-1,4); else { wrt(a,0,4); wrt(a+4,0,4); } inAtomic=false; load(); }
  void condWait(const Inst& I, CallI& c, bool timed, int tsarg=2) {
    u64 cv=argc_(c,0), m=argc_(c,1);
    if (t->phase==0) { 
      if (!t->granted) { u64 dl=0; if (timed) { u64 ts=argc_(c,tsarg); u64 sec=rd(ts), ns=rd(ts+8); dl=sec*1000000000ull+ns; } t->deadline=dl; t->mtx=m; if (s->th.size()==1 && !timed) { munlock(m); violation("deadlock","condition wait with no other thread"); } park(P_CWAIT,cv,0); }
      t->granted=false; recordOp(P_CWAIT,cv); recordOpM(m); munlock(m); t->phase=1; t->timed=timed; t->timedout=false; t->cwseq=++s->cwctr; t->st=T_PEND; t->pk=P_CWAIT; t->addr=cv; if (timed && s->clock>=t->deadline) fireTimers(); throw Switch(); }
    // phase 2: woken, lock granted
    if (!t->granted) { park(P_LOCK,m,0); }
    t->granted=false; recordOp(P_LOCK,m); mlock(m); bool to=t->timedout; t->phase=0; t->timedout=false; t->timed=false; if (!to) progress(); biRet(I,c,C(to?110:0)); }
  void recordOpM(u64 m) { recordOp(P_UNLOCK,m); }
  void condSignal(const Inst& I, CallI& c, bool all) {
    u64 cv=argc_(c,0); curOrd=0; visible(P_WRITE,cv); load();
    for (;;) { Thread* b=nullptr; for (auto& x: s->th) if (x.st==T_PEND && x.pk==P_CWAIT && x.phase==1 && x.addr==cv && (!b||x.cwseq<b->cwseq)) b=&x; if (!b) break; b->pk=P_LOCK; b->addr=b->mtx; b->phase=2; b->timed=false; b->vc.join(t->vc); progress(); if (!all) break; }
    biRet(I,c,C(0)); }
  void setup_builtins() {
    for (const char* n: {"malloc","_Znwm","_Znam"}) BI(n) { static_assert(true); u64 z=e.argc_(c,0); uint8_t ak=c_ak(e,c); u64 p=e.newObj(z,K_HEAP,ak,0xCD); e.load(); RETV(C(p)); };
    BI("aligned_alloc") { u64 z=e.argc_(c,1); u64 p=e.newObj(z,K_HEAP,0,0xCD); e.load(); RETV(C(p)); };
    BI("posix_memalign") { u64 z=e.argc_(c,2); u64 q=e.argc_(c,0); u64 p=e.newObj(z,K_HEAP,0,0xCD); e.wrt(q,p); e.load(); RETV(C(0)); };
    for (const char* n: {"_ZnwmSt11align_val_t","_ZnwmSt11align_val_tRKSt9nothrow_t"}) BI(n) { u64 z=e.argc_(c,0); u64 p=e.newObj(z,K_HEAP,3,0xCD); e.load(); RETV(C(p)); };
    for (const char* n: {"_ZnwmRKSt9nothrow_t"}) BI(n) { u64 z=e.argc_(c,0); u64 p=e.newObj(z,K_HEAP,1,0xCD); e.load(); RETV(C(p)); };
    BI("calloc") { u64 z=e.argc_(c,0)*e.argc_(c,1); u64 p=e.newObj(z,K_HEAP,0,0); e.load(); RETV(C(p)); };
    BI("free") { u64 p=e.argc_(c,0); e.freeObj(p,0); e.load(); e.biRet(I,c); };
    for (const char* n: {"_ZdlPv","_ZdlPvm","_ZdlPvRKSt9nothrow_t"}) BI(n) { u64 p=e.argc_(c,0); e.freeObj(p,1); e.load(); e.biRet(I,c); };
    for (const char* n: {"_ZdaPv","_ZdaPvm"}) BI(n) { u64 p=e.argc_(c,0); e.freeObj(p,2); e.load(); e.biRet(I,c); };
    for (const char* n: {"_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) BI(n) { u64 p=e.argc_(c,0); e.freeObj(p,3); e.load(); e.biRet(I,c); };
    for (const char* n: {"memcpy","memmove"}) BI(n) { u64 z=e.argc_(c,2), d=e.argc_(c,0), q=e.argc_(c,1); e.copy(d,q,z); e.load(); RETV(C(d)); };
    BI("memset") { u64 z=e.argc_(c,2), d=e.argc_(c,0); e.memset_(d,e.castv(Instruction::Trunc,e.get(c.args[1].first),32,8),z); e.load(); RETV(C(d)); };
    for (const char* n: {"memcmp","bcmp"}) BI(n) { u64 z=e.argc_(c,2), p=e.argc_(c,0), q=e.argc_(c,1); if (!z) { RETV(C(0)); return; } Obj *a=e.chk(p,z,false), *b=e.chk(q,z,false); 
        const Expr* r=eb.cst(0,32); bool same=true; for (u64 i=z;i-->0;) { const Expr *x=ex(e.ldBytes(a,(p&OMASK)+i,8,1),8), *y=ex(e.ldBytes(b,(q&OMASK)+i,8,1),8); if (x==y) continue; same=false; r=eb.ite(eb.bin(E_EQ,x,y),r,eb.ite(eb.bin(E_ULT,x,y),eb.cst(0xffffffffu,32),eb.cst(1,32))); } (void)same; RETV(mk(r)); };
    BI("strlen") { u64 p=e.argc_(c,0); u64 n=0; for (;;) { Obj* o=e.chk(p+n,1,false); Val v=e.ldBytes(o,(p+n)&OMASK,8,1); if (v.e ? e.branch(eb.bin(E_EQ,v.e,eb.cst(0,8))) : v.c==0) break; ++n; } RETV(C(n)); };
    BI("memchr") { u64 p=e.argc_(c,0), ch=e.argc_(c,1)&255, z=e.argc_(c,2); u64 r=0; for (u64 i=0;i<z;i++) { Obj* o=e.chk(p+i,1,false); Val v=e.ldBytes(o,(p+i)&OMASK,8,1); if (v.e ? e.branch(eb.bin(E_EQ,v.e,eb.cst(ch,8))) : v.c==ch) { r=p+i; break; } } RETV(C(r)); };
    BI("log10") { RETV(e.fpv(log10(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("log") { RETV(e.fpv(log(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("log2") { RETV(e.fpv(log2(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("exp") { RETV(e.fpv(exp(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("sqrt") { RETV(e.fpv(sqrt(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("ceil") { RETV(e.fpv(ceil(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("floor") { RETV(e.fpv(floor(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("fabs") { RETV(e.fpv(fabs(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("round") { RETV(e.fpv(round(e.fp(e.get(c.args[0].first),64)),64)); };
    BI("pow") { double x=e.fp(e.get(c.args[0].first),64), y=e.fp(e.get(c.args[1].first),64); RETV(e.fpv(pow(x,y),64)); };
    // --- engine interface
    BI("asym_make") { u64 nm=e.argc_(c,0); u64 w=e.argc_(c,1); std::string n=e.cstr(nm); int k=e.s->vcount[n]++; std::string full=n+"#"+std::to_string(k);
        static std::map<std::pair<std::string,unsigned>,const Expr*> cache; unsigned W=(unsigned)w; auto& v=cache[{full,W}]; if (!v) v=eb.var(full,W);
        if (e.replaying) { u64 x=0; bool hit=false; for (auto& p: e.rvars) if (p.first==full) { x=p.second; hit=true; } (void)hit; auto nm2=std::make_shared<Model>(*e.s->m); if (nm2->v.size()<=(size_t)v->v) nm2->v.resize((size_t)v->v+1); nm2->v[(size_t)v->v]=x; e.s->m=nm2; e.s->vars.push_back((uint32_t)v->v); RETV(C(x)); return; }
        e.s->vars.push_back((uint32_t)v->v); RETV(mk(eb.zext(v,64))); };
    BI("asym_assume") { Val v=e.get(c.args[0].first); const Expr* x=eb.bin(E_EQ,ex(v,c.aw[0]),eb.cst(0,c.aw[0])); x=eb.Not(x); if (EB::isC(x)) { if (!x->v) { e.assumeKilled++; throw Kill(); } }
        else { if (eb.eval(x,*e.s->m)==0) { ModelP m; int r=solver->check(e.s->pc,x,e.s->m,&m); if (r!=1) { if (r<0) { e.incomplete=true; e.incWhy.insert("solver timeout"); } e.assumeKilled++; throw Kill(); } e.s->m=m; } e.s->pc.push_back(x); } e.biRet(I,c); };
    BI("asym_assert") { Val v=e.get(c.args[0].first); e.asserts++; std::string msg=e.cstr(e.argc_(c,1)); if (!v.e) { if (!(v.c&msk(c.aw[0]))) e.violation("assert",msg); e.biRet(I,c); return; }
        const Expr* ok=eb.Not(eb.bin(E_EQ,v.e,eb.cst(0,c.aw[0]))); if (EB::isC(ok)) { if (!ok->v) e.violation("assert",msg); e.biRet(I,c); return; } e.assertQ++;
        ModelP m; const Expr* bad=eb.Not(ok); if (eb.eval(bad,*e.s->m)) e.violation("assert",msg); int r=solver->check(e.s->pc,bad,e.s->m,&m); if (r==1) e.violation("assert",msg,m); if (r<0) { e.incomplete=true; e.incWhy.insert("solver timeout on an assertion"); } e.biRet(I,c); };
    BI("asym_conc") { u64 v=e.conc(e.get(c.args[0].first),64); e.load(); RETV(C(v)); };
    BI("asym_is_symbolic") { RETV(C(e.get(c.args[0].first).e!=nullptr)); };
    BI("asym_feasible") { Val v=e.get(c.args[0].first); bool r; if (!v.e) r=v.c!=0; else { const Expr* x=eb.Not(eb.bin(E_EQ,v.e,eb.cst(0,c.aw[0]))); r=EB::isC(x)?x->v!=0:(eb.eval(x,*e.s->m)!=0||solver->check(e.s->pc,x,e.s->m,nullptr)!=0); } RETV(C(r)); };
    BI("asym_reach") { e.s->reach.push_back(e.cstr(e.argc_(c,0))); e.biRet(I,c); };
    BI("asym_out") { std::string n=e.cstr(e.argc_(c,0)); e.s->outs.push_back({n,e.get(c.args[1].first)}); e.biRet(I,c); };
    BI("asym_print") { std::string n=e.cstr(e.argc_(c,0)); if (opt.verbose||e.replaying) { Val v=e.get(c.args[1].first); fprintf(stderr,"[t%d] %s %s\n",e.s->cur,n.c_str(), v.e?("sym="+std::to_string((u64)eb.eval(v.e,*e.s->m))).c_str():std::to_string((i64)v.c).c_str()); } e.biRet(I,c); };
    BI("asym_fail") { e.violation("assert",e.cstr(e.argc_(c,0))); };
    BI("asym_unsupported") { e.violation("engine",e.cstr(e.argc_(c,0))); };
    BI("asym_kill") { e.assumeKilled++; throw Kill(); };
    BI("asym_window") { u64 v=e.argc_(c,0); e.s->window=v!=0; e.biRet(I,c); };
    BI("asym_symbolic_engine") { RETV(C(1)); };
    BI("asym_tid") { RETV(C(e.s->cur)); };
    BI("asym_nthreads") { u64 n=0; for (auto& x: e.s->th) if (x.st!=T_DONE) ++n; RETV(C(n)); };
    BI("asym_clock") { RETV(C(e.s->clock)); };
    BI("asym_advance") { u64 d=e.argc_(c,0); e.s->clock+=d; e.fireTimers(); e.biRet(I,c); };
    BI("asym_live_heap") { u64 n=0; for (auto& p: e.s->mem.pages) if (p) for (auto& o: p->o) if (o && o->kind==K_HEAP) ++n; RETV(C(n)); };
    BI("asym_throw") { u64 h=e.argc_(c,0); e.unwind(h,true,true); };
    BI("asym_rethrow_hdr") { u64 h=e.argc_(c,0); e.unwind(h,true,true); };
    BI("asym_upcast") { u64 r=0; int q=e.upcast(e.argc_(c,0),e.argc_(c,1),e.argc_(c,2),r); e.load(); RETV(C(q==1?r:0)); };
    BI("asym_terminate") { e.violation("terminate",e.cstr(e.argc_(c,0))); };
    BI("abort") { e.violation("terminate","abort() called"); };
    BI("__assert_fail") { e.violation("assert","library assertion failed: "+e.cstr(e.argc_(c,0))+" "+e.cstr(e.argc_(c,1))); };
    BI("__cxa_pure_virtual") { e.violation("memory","pure virtual function called"); };
    BI("__cxa_deleted_virtual") { e.violation("memory","deleted virtual function called"); };
    // --- threads
    BI("pthread_mutex_lock") { e.lockOp(I,c); };
    BI("pthread_mutex_trylock") { u64 a=e.argc_(c,0); e.curOrd=7; e.visible(P_WRITE,a); e.load(); e.inAtomic=true; u64 ow=e.rd(a,4); e.inAtomic=false; u64 kind=e.rd(a+16,4)&3; if (ow==0||(ow==(u64)e.s->cur+1&&kind==1)) { e.mlock(a); RETV(C(0)); } else RETV(C(16)); };
    BI("pthread_mutex_unlock") { u64 a=e.argc_(c,0); e.recordOp(P_UNLOCK,a); e.munlock(a); RETV(C(0)); };
    BI("pthread_mutex_init") { u64 a=e.argc_(c,0); u64 at=e.argc_(c,1); u64 kind=at?e.rd(at,4):0; for (int i=0;i<40;i+=8) e.wrt(a+i,0); e.wrt(a+16,kind&3,4); e.load(); RETV(C(0)); };
    BI("pthread_mutex_destroy") { u64 a=e.argc_(c,0); e.inAtomic=true; u64 ow=e.rd(a,4); e.inAtomic=false; if (ow) e.violation("lock","a locked mutex is destroyed"); RETV(C(0)); };
    BI("pthread_mutexattr_init") { u64 a=e.argc_(c,0); e.wrt(a,0,4); RETV(C(0)); };
    BI("pthread_mutexattr_settype") { u64 a=e.argc_(c,0); e.wrt(a,e.argc_(c,1),4); RETV(C(0)); };
    BI("pthread_mutexattr_destroy") { RETV(C(0)); };
    BI("pthread_cond_init") { u64 a=e.argc_(c,0); for (int i=0;i<48;i+=8) e.wrt(a+i,0); e.load(); RETV(C(0)); };
    BI("pthread_cond_destroy") { RETV(C(0)); };
    for (const char* n: {"pthread_condattr_init","pthread_condattr_destroy","pthread_condattr_setclock","sched_yield_dummy","pthread_attr_init","pthread_attr_destroy","pthread_attr_setdetachstate","pthread_attr_setstacksize","pthread_setaffinity_np","pthread_detach"}) BI(n) { RETV(C(0)); };
    BI("pthread_cond_wait") { e.condWait(I,c,false); };
    BI("pthread_cond_timedwait") { e.condWait(I,c,true); };
    BI("pthread_cond_clockwait") { e.condWait(I,c,true,3); };
    BI("pthread_cond_signal") { e.condSignal(I,c,false); };
    BI("pthread_cond_broadcast") { e.condSignal(I,c,true); };
    BI("asym_spawn") { u64 fnp=e.argc_(c,0), arg=e.argc_(c,1); int id=e.spawn(fnp,arg); RETV(C(id)); };
    BI("asym_join") { u64 id=e.argc_(c,0); if (!e.t->granted) e.park(P_JOIN,0,id); e.t->granted=false; e.recordOp(P_OTHER,0); e.t->vc.join(e.s->th[id].vc); e.t->hv.join(e.s->th[id].hv); e.progress(); e.biRet(I,c); };
    BI("asym_yield") { if (e.s->th.size()==1) { e.biRet(I,c); return; } if (!e.t->granted) { e.t->yielded=true; e.park(P_YIELD,0,0); } e.t->granted=false; e.biRet(I,c); };
    BI("asym_sleep") { u64 ns=e.argc_(c,0); if (!e.t->granted) { e.t->deadline=e.s->clock+ns; e.park(P_SLEEP,0,0); } e.t->granted=false; e.biRet(I,c); };
    // blocks while *(u32*)addr == val; timed when ns != ~0 (absolute virtual time); returns 1 unless it timed out
    BI("asym_block_while") { u64 a=e.argc_(c,0), v=e.argc_(c,1), dl=e.argc_(c,2); if (!e.t->granted) { e.t->timed=dl!=~0ull; e.t->deadline=dl; e.t->timedout=false; if (e.s->th.size()==1 && !e.t->timed && e.rd(a,4)==(uint32_t)v) e.violation("deadlock","wait that nothing can end"); e.park(P_BLOCKNE,a,v); } e.t->granted=false; bool to=e.t->timedout; e.t->timedout=false; e.t->timed=false; e.curOrd=1; e.recordOp(P_BLOCKNE,a); e.progress(); RETV(C(!to)); };
  }
  static uint8_t c_ak(Eng& e, CallI& c) { const std::string& n=c.f?c.target->name:e.fnByAddr[e.conc(e.get(c.fp),64)]->name; return n=="malloc"?0:n=="_Znwm"?1:2; }
