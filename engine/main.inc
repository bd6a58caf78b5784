void Eng::visible(PK k, u64 addr, u64 rc) {
  bool dep=!(rc && !opt.rcvis);
  if (t->granted) { t->granted=false; recordOp(k,addr,dep); return; }
  if (s->th.size()==1) { if (k==P_LOCK) { if (!([&]{ t->pk=P_LOCK; t->st=T_PEND; t->addr=addr; bool e=enabledT(*t); t->st=T_RUN; return e; })()) violation("deadlock","mutex locked again by its owner"); } recordOp(k,addr,dep); return; }
  if (k!=P_LOCK && (!s->window || !dep)) { recordOp(k,addr,dep); return; }
  if (k==P_LOCK && !s->window) { t->pk=P_LOCK; t->addr=addr; t->st=T_PEND; bool e=enabledT(*t); t->st=T_RUN; if (e) { recordOp(k,addr,dep); return; } }
  park(k,addr,0);
}
static std::string jesc(const std::string& s) { std::string r; for (char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c=='\n') r+="\\n"; else if ((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static void writeReplay(const std::string& path, const Violation& v) {
  std::ofstream o(path); o<<"entry "<<opt.entry<<"\nkind "<<v.kind<<"\nmsg "; for (char c: v.msg) o<<(c=='\n'?' ':c); o<<"\n"; for (auto& p: v.vars) o<<"var "<<p.first<<" "<<p.second<<"\n"; if (!v.sched.empty()) { o<<"sched"; for (int x: v.sched) o<<" "<<x; o<<"\n"; } o<<"---\n"<<v.stack; }
int main(int argc, char** argv) { double slow=0;
  t0=now();
  for (int i=1;i<argc;i++) { std::string a=argv[i]; auto val=[&](const char* k)->const char*{ size_t n=strlen(k); return a.compare(0,n,k)==0?a.c_str()+n:nullptr; }; const char* v;
    if ((v=val("--entry="))) opt.entry=v; else if ((v=val("--out="))) opt.out=v; else if ((v=val("--replay="))) opt.replay=v; else if ((v=val("--replaydir="))) opt.replaydir=v; else if ((v=val("--max-time="))) opt.maxtime=atof(v); else if ((v=val("--max-paths="))) opt.maxpaths=strtoull(v,0,10); else if ((v=val("--max-steps="))) opt.maxsteps=strtoull(v,0,10); else if ((v=val("--preempt="))) opt.preempt=atoi(v); else if ((v=val("--slow="))) slow=atof(v); else if (a=="-v") opt.verbose=true; else if (a=="--races") opt.races=true; else if (a=="--nosleep") opt.nosleep=true; else if (a=="--full") opt.full=opt.nosleep=true; else if (a=="--timeouts") opt.timeouts=true; else if (a=="--rc") opt.rcvis=true; else if ((v=val("--samples="))) opt.samples=atoi(v); else if ((v=val("--idle="))) opt.idle=atoi(v); else if ((v=val("--max-viol="))) opt.maxviol=atoi(v); else if ((v=val("--dbg="))) opt.dbg=strtoull(v,0,10); else if (a[0]!='-') opt.bc=a; else { fprintf(stderr,"unknown option %s\n",argv[i]); return 3; } }
  LC=new LLVMContext; SMDiagnostic err; auto mod=parseIRFile(opt.bc,err,*LC); if (!mod) { err.print("asym",errs()); return 3; } M=mod.release();
  solver=new Solver; solver->slowlog=slow; Eng E; E.setup_builtins();
  E.s=&E.init; E.setup();
  if (!opt.replay.empty()) { std::ifstream in(opt.replay); std::string l; E.replaying=true; while (std::getline(in,l)) { if (l=="---") break; std::istringstream is(l); std::string k; is>>k; if (k=="entry") is>>opt.entry; if (k=="var") { size_t e=l.rfind(' '); E.rvars.push_back({l.substr(4,e-4),strtoull(l.c_str()+e,0,10)}); } if (k=="sched") { int x; while (is>>x) E.rsched.push_back(x); } } }
  Function* F=M->getFunction(opt.entry); if (!F) die("no entry "+opt.entry);
  // the start state runs global constructors, then the entry
  State* s=new State(E.init); s->m=std::make_shared<Model>(); Thread th; th.id=0; th.hv.c[0]=1; s->th.push_back(th); E.s=s; E.load();
  Function* boot=M->getFunction("asym_boot"); if (!boot) die("no asym_boot (rt not linked)");
  // asym_boot(void(**ctors)(), n, entry)
  { std::vector<u64> ct; if (auto* g=M->getGlobalVariable("llvm.global_ctors")) if (auto* a=dyn_cast<ConstantArray>(g->getInitializer())) { std::vector<std::pair<u64,u64>> v; for (auto& o: a->operands()) { auto* st=cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),E.cval(st->getOperand(1))[0].c}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for (auto& p: v) ct.push_back(p.second); }
    u64 arr=E.newObj(ct.size()*8+8,K_GLOBAL,0,0); for (size_t i=0;i<ct.size();i++) E.wrt(arr+8*i,ct[i]);
    std::vector<Val> args{C(arr),C(ct.size()),C(E.gaddr[F])}; E.enter(E.getFn(boot),args); }
  E.explore();
  // ---- report
  std::ostringstream o; int rc=0; bool engerr=false; for (auto& v: E.viol) if (v.kind=="engine") engerr=true;
  std::vector<std::string> fl; u64 lib=0, enc=0; for (auto& p: E.fns) if (p.second->execs) { enc++; if (p.second->lib) { lib++; fl.push_back(E.shorten(p.second->dname)); } }
  std::sort(fl.begin(),fl.end()); fl.erase(std::unique(fl.begin(),fl.end()),fl.end());
  struct rusage ru; getrusage(RUSAGE_SELF,&ru);
  o<<"{\"entry\":\""<<opt.entry<<"\",\"paths\":"<<E.paths<<",\"completed\":"<<E.completed<<",\"assume_killed\":"<<E.assumeKilled<<",\"forks\":"<<E.forks<<",\"instructions\":"<<E.instrs<<",\"sched_points\":"<<E.schedPts<<",\"sched_branches\":"<<E.schedBranches<<",\"bound_skips\":"<<E.boundSkips<<",\"sleep_cuts\":"<<E.sleepCuts<<",\"threads\":"<<E.maxThreads<<",\"asserts\":"<<E.asserts<<",\"assert_queries\":"<<E.assertQ<<",\"queries\":"<<solver->st.queries<<",\"sat\":"<<solver->st.sat<<",\"unsat\":"<<solver->st.unsat<<",\"unknown\":"<<solver->st.unknown<<",\"cached\":"<<solver->st.cached<<",\"solver_time\":"<<solver->st.time<<",\"max_query\":"<<solver->st.maxq<<",\"wall\":"<<now()-t0<<",\"maxrss_mb\":"<<ru.ru_maxrss/1024<<",\"preempt\":"<<opt.preempt<<",\"diverged\":"<<(E.diverged?"true":"false")<<",\"exhaustive\":"<<(E.incomplete||!E.viol.empty()?"false":"true")<<",\"incomplete\":[";
  bool first=true; for (auto& w: E.incWhy) { o<<(first?"":",")<<"\""<<w<<"\""; first=false; } o<<"],\"reach\":{"; first=true; for (auto& p: E.reachCount) { o<<(first?"":",")<<"\""<<jesc(p.first)<<"\":"<<p.second; first=false; } o<<"},\"functions_encoded\":"<<enc<<",\"library_functions_encoded\":"<<lib<<",\"functions\":["; first=true; for (auto& n: fl) { o<<(first?"":",")<<"\""<<jesc(n)<<"\""; first=false; }
  o<<"],\"samples\":["; first=true; for (auto& n: E.samples) { o<<(first?"":",")<<n; first=false; } o<<"],\"violations\":["; int k=0;
  for (auto& v: E.viol) { std::string rp=opt.replaydir+"/"+opt.entry+"."+std::to_string(k)+".replay"; if (!E.replaying && v.kind!="engine") writeReplay(rp,v); o<<(k?",":"")<<"{\"kind\":\""<<jesc(v.kind)<<"\",\"msg\":\""<<jesc(v.msg)<<"\",\"replay\":\""<<jesc(rp)<<"\",\"threads\":"<<(v.sched.empty()?"false":"true")<<",\"stack\":\""<<jesc(v.stack)<<"\",\"vars\":["; for (size_t i=0;i<v.vars.size();i++) o<<(i?",":"")<<"[\""<<v.vars[i].first<<"\","<<v.vars[i].second<<"]"; o<<"]}"; ++k; rc=1; }
  o<<"]}\n"; if (engerr) rc=2;
  if (!opt.out.empty()) { std::ofstream f(opt.out); f<<o.str(); } else if (opt.verbose||true) fputs(o.str().c_str(),stdout);
  // lines of the library executed (1) or only compiled (0), for tools/cov.py
  if (const char* cd=getenv("ASYM_COV")) { std::map<std::string,int> cov;
    auto mark=[&](const Instruction* I, bool x) { if (const DILocation* L=I->getDebugLoc().get()) { std::string fl=L->getFilename().str(); size_t k=fl.find("boost/asynchronous/"); if (k!=std::string::npos && L->getLine()) { int& c=cov[fl.substr(k+19)+":"+std::to_string(L->getLine())]; c|=x; } } };
    for (auto& F: *M) { auto it=E.fns.find(&F); if (it==E.fns.end()||it->second->code.empty()) { for (auto& B: F) for (auto& I: B) mark(&I,false); } else for (auto& I: it->second->code) if (I.src) mark(I.src,I.cov); }
    std::ofstream f(std::string(cd)+"/"+opt.entry+"."+std::to_string(getpid())); for (auto& c: cov) f<<c.first<<" "<<c.second<<"\n"; }
  fflush(0); _exit(rc);
}
