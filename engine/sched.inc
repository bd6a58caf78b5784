  // ---------------------------------------------------------------- threads and schedules
  void threadDone() { t->st=T_DONE; }
  bool enabledT(Thread& x) {
    if (x.st!=T_PEND) return x.st==T_RUN;
    switch (x.pk) {
      case P_LOCK: { Obj* o=s->mem.get(x.addr>>OB); if (!o) return true; uint32_t ow; memcpy(&ow,o->d+(x.addr&OMASK),4); uint32_t kind; memcpy(&kind,o->d+(x.addr&OMASK)+16,4); return ow==0||((kind&3)==1&&ow==(uint32_t)x.id+1); }
      case P_CWAIT: return x.phase==0;           // phase 1: blocked in the wait
      case P_BLOCKNE: { Obj* o=s->mem.get(x.addr>>OB); if (!o) return true; Val v=ldBytes(o,x.addr&OMASK,32,4); return v.e!=nullptr || (uint32_t)v.c!=(uint32_t)x.arg; }
      case P_JOIN: return s->th[x.arg].st==T_DONE;
      case P_SLEEP: return s->clock>=x.deadline;
      default: return true; } }
  // with --timeouts a timed wait or a sleep may end at any moment, at the price of one preemption; otherwise only when nothing else can run
  bool canTimeout(Thread& x) { if (!opt.timeouts || !s->window || x.st!=T_PEND) return false; if (x.pk==P_CWAIT) return x.phase==1 && x.timed; if (x.pk==P_BLOCKNE) return x.timed && !enabledT(x); if (x.pk==P_SLEEP) return s->clock<x.deadline; return false; }
  void timeout(Thread& x) { s->clock=std::max(s->clock,x.deadline); if (x.pk==P_SLEEP) return; Thread* ot=t; t=&x; if (x.pk==P_CWAIT) { u64 cv=x.addr; recordOp(P_CWAIT,cv); } t=ot;
    if (x.pk==P_CWAIT) { x.pk=P_LOCK; x.addr=x.mtx; x.phase=2; x.timedout=true; x.timed=false; } else if (x.pk==P_BLOCKNE) { x.pk=P_OTHER; x.timedout=true; x.timed=false; } }
  Acc& acc(u64 addr, bool w) { Obj* o=s->mem.getW(addr>>OB); if (!o->sync) o->sync=Ref<Sync>(new Sync); else if (o->sync->refs>1) { Sync* q=new Sync(*o->sync.p); q->refs=0; o->sync=Ref<Sync>(q); } return o->sync->m[(uint32_t)(addr&OMASK)]; }
  static bool isWrite(PK k) { return k==P_WRITE||k==P_LOCK||k==P_UNLOCK||k==P_CWAIT||k==P_CWOKEN; }
  static bool isMem(PK k) { return k==P_READ||k==P_WRITE||k==P_LOCK||k==P_UNLOCK||k==P_CWAIT||k==P_BLOCKNE||k==P_CWOKEN; }
  void addBack(Node& nd, int p) {
    uint32_t want; if (nd.enabled&(1u<<p)) want=1u<<p; else want=nd.enabled;
    nd.back|=want; }
  void dporCheck(Thread& p) {
    if (!s->window || p.st!=T_PEND || !isMem(p.pk) || !p.addr || (p.pk==P_CWAIT && p.phase==1 && !canTimeout(p))) return;
    Obj* o=s->mem.get(p.addr>>OB); if (!o||!o->sync) return; auto it=o->sync->m.find((uint32_t)(p.addr&OMASK)); if (it==o->sync->m.end()) return; const Acc& a=it->second;
    bool w=isWrite(p.pk); 
    // latest dependent, concurrent operation of every other thread (all of them: keeps bounded search complete)
    uint32_t best=0; for (int q=0;q<(int)s->th.size();q++) if (q!=p.id) { uint32_t i=a.lw[q]; if (w) i=std::max(i,a.lr[q]); if (!i || i<=p.vc.c[q]) continue; best=std::max(best,i); }
    if (best) requestBack(best,p.id); }
  void requestBack(uint32_t opidx, int p) {
    // node whose transition had index opidx
    int lo=0, hi=(int)schedNodes.size()-1, pos=-1; while (lo<=hi) { int m=(lo+hi)/2; if (stack[schedNodes[m]].idx<=opidx) { pos=m; lo=m+1; } else hi=m-1; }
    if (pos<0) return; 
    // only nodes on the current path count; the node with idx==opidx, or the preceding one when that step had a single choice
    Node& nd=stack[schedNodes[pos]]; if (nd.idx==opidx) addBack(nd,p);
    // bounded search: also at the start of the same thread's uninterrupted run (no preemption needed there)
    int th=-1; if (nd.idx==opidx) th=nd.chosen; 
    if (th>=0) { int j=pos; while (j>=0 && stack[schedNodes[j]].chosen==th) { Node& q=stack[schedNodes[j]]; if (q.prevRun!=th || !q.prevEnabled) { addBack(q,p); break; } --j; } } }
  // called by an instruction of the current thread before a visible operation
  [[noreturn]] void park(PK k, u64 addr, u64 arg) { t->st=T_PEND; t->pk=k; t->addr=addr; t->arg=arg; throw Switch(); }
  uint8_t curOrd=0;
  // dep=false: an operation that is not a scheduling point (see --rc): it orders data accesses but nothing else
  void recordOp(PK k, u64 addr, bool dep=true) {
    uint8_t ord=curOrd; curOrd=0;
    uint32_t ix=++s->opidx; t->vc.c[t->id]=ix; 
    if (dep && s->sleep && addr) for (auto& x: s->th) if ((s->sleep>>x.id&1) && x.addr==addr && (isWrite(k)||isWrite(x.pk))) s->sleep&=~(1u<<x.id);
    if (isMem(k) && addr) { chkSync(addr); Acc& a=acc(addr,true);
      if (dep) { if (isWrite(k)) { t->vc.join(a.vr); t->vc.join(a.vw); t->vc.c[t->id]=ix; if (k!=P_UNLOCK) a.lw[t->id]=ix; a.vw=t->vc; } else { t->vc.join(a.vw); t->vc.c[t->id]=ix; a.lr[t->id]=ix; a.vr.join(t->vc); } }
      if (opt.races) { bool acq=false, rel=false, rmw=false; // happens-before
        switch (k) { case P_LOCK: acq=true; rmw=true; break; case P_UNLOCK: rel=true; break; case P_READ: case P_BLOCKNE: acq=ord&1; t->acqPend.join(a.rel); rmw=true; break; case P_WRITE: acq=(ord&5)==5; rel=ord&2; rmw=ord&4; if (rmw) t->acqPend.join(a.rel); break; default: rmw=true; }
        if (acq) t->hv.join(a.rel);
        if (k!=P_READ && k!=P_BLOCKNE && k!=P_LOCK && k!=P_CWAIT) { VC r=rel?t->hv:t->relF; if (rmw) a.rel.join(r); else a.rel=r; }
        if (rel) ++t->hv.c[t->id]; } } }
  // an object goes away: every recorded operation on it conflicts with that
  void released(u64 id) { if (!s->window) return; Obj* o=s->mem.get(id); if (!o||!o->sync) return; if (s->sleep) for (auto& x: s->th) if ((s->sleep>>x.id&1) && x.addr>>OB==id) s->sleep&=~(1u<<x.id);
    if (replaying) return; for (auto& pr: o->sync->m) { uint32_t best=0; for (int q=0;q<(int)s->th.size();q++) if (q!=t->id) { uint32_t i=std::max(pr.second.lw[q],pr.second.lr[q]); if (i>t->vc.c[q]) best=std::max(best,i); } if (best) requestBack(best,t->id); } }
  void chkSync(u64 addr) { inAtomic=true; try { chk(addr,1,false); } catch (...) { inAtomic=false; throw; } inAtomic=false; }
  // ---- the scheduler: picks the next thread; throws Kill when the path ends
  void schedule() {
    for (;;) {
      int n=s->th.size(); uint32_t en=0, live=0; for (int i=0;i<n;i++) { Thread& x=s->th[i]; if (x.st!=T_DONE) live|=1u<<i; if (x.st!=T_DONE && enabledT(x)) en|=1u<<i; }
      if (s->th[0].st==T_DONE) { pathDone(); throw Kill(); }
      if (!en) { // nothing runnable: time passes
        u64 best=~0ull; for (auto& x: s->th) if (x.st==T_PEND && (x.timed||x.pk==P_SLEEP)) best=std::min(best,x.deadline);
        if (best!=~0ull) { s->clock=std::max(s->clock,best); if (++s->idle>opt.idle*4) hang(); fireTimers(); continue; }
        s->cur=0; violation("deadlock","no thread can run: "+blockedList()); }
      // a new thread runs up to its first visible operation at once: that part commutes with everything
      if (s->window) { bool st=false; for (int i=0;i<n;i++) { Thread& x=s->th[i]; if (x.st==T_PEND && x.pk==P_START) { s->cur=i; x.granted=false; x.yielded=false; x.st=T_RUN; st=true; break; } } if (st) return; }
      // fair schedules only: after a yield a thread waits until every thread enabled then has made a step since its previous yield
      for (auto& x: s->th) if (x.yielded) { x.yielded=false; x.wait=en&~x.since&~(1u<<x.id); x.since=0; x.tick=true; x.yc++; }
      bool allTick=true, allIdle=true; for (int i=0;i<n;i++) if (en>>i&1) { if (!s->th[i].tick) allTick=false; if (s->th[i].yc<opt.idle) allIdle=false; }
      if (allTick) { for (auto& x: s->th) x.tick=false; s->clock+=1000000; if (allIdle) hang(); fireTimers(); continue; }
      uint32_t act=0; for (int i=0;i<n;i++) if ((en>>i&1) && !(s->th[i].wait&en)) act|=1u<<i;
      if (!act) { for (auto& x: s->th) x.wait=0; act=en; }
      uint32_t te=0; for (int i=0;i<n;i++) if (canTimeout(s->th[i])) te|=1u<<i;
      int c; int last=s->lastRun; bool lastEn=last>=0 && (act>>last&1);
      if (lastEn) c=last; else { c=-1; for (int k=1;k<=n;k++) { int i=((last<0?-1:last)+k+n)%n; if (act>>i&1) { c=i; break; } } }
      s->sleep&=~(1u<<31);
      // races of the pending operations against what was done: before any cut, also for operations that are disabled now
      if (s->window && !replaying) for (auto& x: s->th) if (x.st==T_PEND) dporCheck(x);
      if (s->window && !replaying && (s->sleep>>c&1)) { // already explored from an equivalent state: take another thread or drop the path
        uint32_t al=act&~s->sleep; if (!al) { sleepCuts++; throw Kill(); }
        if (lastEn) { if (opt.preempt>=0 && s->preempts>=opt.preempt) { boundSkips++; throw Kill(); } s->preempts++; }
        c=-1; for (int k=1;k<=n;k++) { int i=((last<0?-1:last)+k+n)%n; if (al>>i&1) { c=i; break; } } }
      if (replaying) { if (s->window && (__builtin_popcount(act|te)>1)) { if (rsi<rsched.size()) { c=rsched[rsi++]; if (!((en|te)>>c&1)) { fprintf(stderr,"asym: replay diverged (thread %d not enabled)\n",c); diverged=true; } } s->sched.push_back(c); } }
      else if (s->window && __builtin_popcount(act|te)>1) {
        schedPts++; Node nd; nd.sched=true; nd.s=new State(*s); nd.idx=s->opidx+1; nd.prevRun=last; nd.prevEnabled=lastEn; nd.enabled=act|te; nd.te=te; nd.chosen=c; nd.done=1u<<c; nd.back=0; nd.skips=boundSkips;
        if (opt.full) nd.back=act|te; // full enumeration, to test the reduction
        stack.push_back(nd); schedNodes.push_back(stack.size()-1); s->sched.push_back(c); }
      give(c); return; } }
  bool diverged=false, incompleteSub=false;
  void progress() { s->idle=0; for (auto& x: s->th) x.yc=0; }
  void give(int c) { for (auto& x: s->th) { x.wait&=~(1u<<c); x.since|=1u<<c; } s->cur=c; s->lastRun=c; Thread& x=s->th[c]; if (!enabledT(x)) { timeout(x); return; } x.granted=true; x.yielded=false; x.st=T_RUN; }
  void fireTimers() { for (auto& x: s->th) if (x.st==T_PEND && x.timed && s->clock>=x.deadline) { if (x.pk==P_CWAIT && x.phase==1) { x.pk=P_LOCK; x.addr=x.mtx; x.phase=2; x.timedout=true; x.timed=false; } else if (x.pk==P_BLOCKNE) { x.pk=P_OTHER; x.timedout=true; x.timed=false; } } }
  std::string blockedList() { std::string r; for (auto& x: s->th) if (x.st!=T_DONE) r+=" thread "+std::to_string(x.id)+" in "+pks(x)+" ("+(x.fr.empty()?"":shorten(x.fr[x.fr.size()>1?x.fr.size()-2:0]->fn->dname))+");"; return r; }
  void hang() { s->cur=0; t=&s->th[0]; violation("hang","no progress: "+blockedList()); }
  // backtracking over schedules
  bool resume() { // picks the next unexplored alternative; false when the search is finished
    while (!stack.empty()) {
      Node& nd=stack.back();
      if (!nd.sched) { s=nd.s; stack.pop_back(); return true; }
      if (boundSkips==nd.skips && !incompleteSub) nd.asleep|=1u<<nd.chosen;
      nd.skips=boundSkips; uint32_t cand=nd.back & ~nd.done & nd.enabled & ~nd.s->sleep;
      while (cand) { int c=__builtin_ctz(cand); cand&=cand-1; nd.done|=1u<<c;
        bool pre=(nd.prevEnabled && nd.prevRun>=0 && c!=nd.prevRun) || (nd.te>>c&1); 
        if (opt.preempt>=0 && pre && nd.s->preempts>=opt.preempt) { boundSkips++; continue; }
        schedBranches++; nd.chosen=c; s=new State(*nd.s); if (!opt.nosleep) s->sleep|=nd.asleep&~(1u<<c); if (pre) s->preempts++; s->sched.push_back(c); give(c); return true; }
      delete nd.s; stack.pop_back(); schedNodes.pop_back(); }
    return false; }
  void pathDone() { completed++; if ((int)samples.size()<opt.samples) sample(); for (auto& r: s->reach) reachCount[r]++; }
  void sample() { std::ostringstream o; o<<"{\"vars\":["; for (size_t i=0;i<s->vars.size();i++) { if (i) o<<","; o<<"[\""<<eb.vars[s->vars[i]].name<<"\","<<(s->m->get(s->vars[i])&msk(eb.vars[s->vars[i]].w))<<"]"; } o<<"],\"sched\":["; for (size_t i=0;i<s->sched.size();i++) o<<(i?",":"")<<s->sched[i]; o<<"],\"out\":["; for (size_t i=0;i<s->outs.size();i++) { Val v=s->outs[i].second; u64 x=v.e?(u64)eb.eval(v.e,*s->m):v.c; o<<(i?",":"")<<"[\""<<s->outs[i].first<<"\","<<x<<"]"; } o<<"],\"reach\":["; for (size_t i=0;i<s->reach.size();i++) o<<(i?",":"")<<"\""<<s->reach[i]<<"\""; o<<"]}"; samples.push_back(o.str()); }
  int spawn(u64 fnp, u64 arg) { if ((int)s->th.size()>=MAXT) { incomplete=true; incWhy.insert("more than 14 threads"); throw Kill(); } Thread n; n.id=s->th.size(); n.vc=t->vc; n.startfn=fnp; n.st=T_PEND; n.pk=P_START; n.arg=arg; 
    uint32_t ix=++s->opidx; t->vc.c[t->id]=ix; n.vc.join(t->vc); n.hv=t->hv; ++t->hv.c[t->id]; n.hv.c[n.id]=1;
    s->th.push_back(n); maxThreads=std::max(maxThreads,(int)s->th.size()); t=&s->th[s->cur];
    auto it=fnByAddr.find(fnp); if (it==fnByAddr.end()) violation("memory","thread start function"); Fn* g=it->second; if (!g->decoded) decode(g); Frame* fr=new Frame; fr->fn=g; fr->R.resize(g->nregs); fr->R[0]=C(arg); s->th.back().fr.push_back(Ref<Frame>(fr)); progress(); load(); return n.id; }
  // main loop over all paths
  void explore() {
    bool more=true;
    while (more) {
      if (now()-t0>opt.maxtime) { incomplete=true; incWhy.insert("time budget"); break; }
      if (paths>=opt.maxpaths) { incomplete=true; incWhy.insert("path budget"); break; }
      paths++;
      try { for (;;) { try { if (s->th[s->cur].st!=T_RUN || s->th[s->cur].fr.empty()) { schedule(); } run(); } catch (Switch&) { schedule(); } } }
      catch (Kill&) {}
      instrs+=s->steps&0xfff; maxDepth=std::max<u64>(maxDepth,s->depth);
      delete s; s=nullptr; t=nullptr; f=nullptr;
      if ((int)viol.size()>=opt.maxviol) break;
      if (replaying) break;
      more=resume(); } }
