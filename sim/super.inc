// Supervisor: one forked process per simulated run, planning of faults, gating, minimisation, replay files, statistics.
namespace rt {
static u64 hstr(const char* s) { u64 h=1469598103934665603ull; for(;*s;s++) h=(h^(u8)*s)*1099511628211ull; return mix(h); }
static const Scenario* SC; static size_t NSC;
struct Result { int outcome; char cls[64]; u64 hash; };
static void on_terminate() {
  char what[600]="no active exception"; 
  if(std::exception_ptr e=std::current_exception()) { try { std::rethrow_exception(e); } catch(std::exception& x) { copystr(what,sizeof what,x.what()); } catch(...) { copystr(what,sizeof what,"unknown exception"); } }
  Rt g; die("terminate","std::terminate was called (thread %d): %s",G.cur->id,what); }
static void* main_body(void* a) { const Scenario* s=(const Scenario*)a; G.cur->rt=0; G.active=1; next_event();
  try { s->run(); } catch(std::exception& e) { Rt g; die("uncaught","an exception escaped the workload: %s",e.what()); } catch(...) { Rt g; die("uncaught","an unknown exception escaped the workload"); }
  G.cur->rt++; G.active=0; 
  if(G.nlive>1) die("threads-left","%d thread(s) still running when the workload ended",G.nlive-1);
  G.on=false; return nullptr; }
static void child(const Scenario* s) {
  Plan* P=G.plan; Shared* sh=G.sh; u64 seed=P->seed; 
  G.wr.s=mix(seed^0x57); G.sr.s=mix(seed^0x53); G.ar.s=mix(seed^0x41); G.dr.s=mix(seed^0x44);
  for(int i=0;i<MAXT;i++) rs[i].clear();
  for(size_t i=0;i<P->S.n;i++) if(P->S[i].tid<MAXT) rs[P->S[i].tid].push(P->S[i]);
  G.limit= s->max_steps? s->max_steps : 3000000; G.fair_after=G.limit/3; G.race_on=true; G.now=1000000; G.minprio=0;
  static const double gaps[]={2,4,10,30,100,400,2000}; static const double ps[]={0,0.05,0.2,0.5};
  G.policy=(int)(G.sr.next()%4); G.pgap=gaps[G.sr.below(7)]; G.psync=ps[G.sr.below(4)]; G.pct_left=0;
  if(G.policy==2) { G.psync=0.3+0.5*G.sr.unit(); }
  if(G.policy==1) { G.psync=0; u32 d=1+G.sr.below(6); static const double len[]={100,400,1500,6000,25000,100000}; double n=G.prof_steps?(double)G.prof_steps:len[G.sr.below(6)]; G.pct_left=d; G.pgap=n/(d+1)+1; }
  G.fillpat=(int)G.sr.below(4);
  sh->hash=mix(seed*0+1); 
  rlimit rl={60,62}; setrlimit(RLIMIT_CPU,&rl); rlimit rc={0,0}; setrlimit(RLIMIT_CORE,&rc);
  std::set_terminate(on_terminate); __libc_single_threaded=0;
  Thread* t=&TH[0]; memset((void*)t,0,sizeof *t); t->state=T_RUN; t->rt=1; t->vc[0]=1; t->prio=500; t->fon=true; G.cur=t; G.nthreads=1; G.nlive=1; G.nunjoined=1; G.steps=0; G.in_step=0; G.next_ev=G.limit;
  ekey_make(); real_create=(decltype(real_create))sym("pthread_create"); real_join=(decltype(real_join))sym("pthread_join");
  G.on=true; 
  const u64 B=0x120000000000ull, N=16u<<20; char* b=(char*)mmap((void*)B,N,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); memset(b+N-(256<<10),0xCB,256<<10);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,b,N); pthread_t th; if(real_create(&th,&at,main_body,(void*)s)) _exit(3);
  real_join(th,nullptr);
  sh->steps=G.steps; sh->simtime=G.now; hashin(G.steps); sh->outcome=O_OK; _exit(0);
}
static u64 nexec;
static void run_once(const Scenario* s,Plan* P,bool faultpass,u64 prof,Result* r) {
  Shared* sh=G.sh; memset((void*)sh,0,offsetof(Shared,nI)); sh->nW=sh->nS=0; if(!faultpass) { sh->nI=0; memset(sh->ihash,0,sizeof sh->ihash); } nexec++;
  G.plan=P; G.sc=s; G.faultpass=faultpass; G.prof_steps=prof;
  fflush(stdout); pid_t pid=fork(); if(pid<0) { fprintf(stderr,"sim: fork failed\n"); _exit(3); }
  if(!pid) { child(s); _exit(3); }
  int st; timespec t0; rawcall(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&t0); int spins=0; bool killed=false;
  // wall-clock guard only against the simulator itself being stuck
  for(;;) { pid_t w=waitpid(pid,&st,spins<0?0:WNOHANG); if(w==pid) break; if(spins<400) { rawcall(SYS_sched_yield); spins++; continue; } timespec z={0,100000}; rawcall(SYS_nanosleep,(long)&z,0); if(++spins%2000==0) { timespec t1; rawcall(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&t1); if(t1.tv_sec-t0.tv_sec>240) { kill(pid,SIGKILL); killed=true; waitpid(pid,&st,0); break; } } }
  if(sh->outcome==O_NONE) {
    if(killed) { fprintf(stderr,"sim: run stuck (seed %llx)\n",(unsigned long long)P->seed); _exit(3); }
    sh->outcome=O_FAIL; sh->hash=mix(sh->hash); 
    if(WIFSIGNALED(st)) { int sg=WTERMSIG(st); if(sg==SIGKILL) { fprintf(stderr,"sim: run killed (memory?)\n"); _exit(3); }
      if(sg==SIGXCPU) { copystr(sh->cls,64,"hang"); snprintf(sh->msg,sizeof sh->msg,"the run used 60 s of processor time without ending"); }
      else { snprintf(sh->cls,64,"crash-signal-%d",sg); snprintf(sh->msg,sizeof sh->msg,"the process was killed by signal %d (%s)",sg,strsignal(sg)); } }
    else { copystr(sh->cls,64,"exit"); snprintf(sh->msg,sizeof sh->msg,"the process ended unexpectedly with status %d",WEXITSTATUS(st)); }
  }
  if(sh->outcome==O_FAIL && !strncmp(sh->cls,"harness",7)) { fprintf(stderr,"sim: %s: %s (seed %llx)\n",sh->cls,sh->msg,(unsigned long long)P->seed); _exit(3); }
  r->outcome=sh->outcome; copystr(r->cls,64,sh->cls); r->hash=sh->hash;
}
// ---- replay files ----
static void replay_write(const char* path,const Scenario* s,Plan* P,const char* cls,u64 hash,const char* msg,const char* desc) {
  FILE* f=fopen(path,"w"); if(!f) { fprintf(stderr,"sim: cannot write %s\n",path); _exit(3); }
  fprintf(f,"simreplay 1\nproperty %s\nscenario %s\nseed %llx\nclass %s\nhash %llx\n",s->prop,s->name,(unsigned long long)P->seed,cls,(unsigned long long)hash);
  fprintf(f,"W %zu",P->W.n); for(size_t i=0;i<P->W.n;i++) fprintf(f," %u",P->W[i]); fprintf(f,"\nF %zu",P->F.n); for(size_t i=0;i<P->F.n;i++) fprintf(f," %u:%u:%u",P->F[i].cls,P->F[i].idx,P->F[i].param);
  fprintf(f,"\nS %zu",P->S.n); for(size_t i=0;i<P->S.n;i++) fprintf(f," %u:%llu:%u",P->S[i].tid,(unsigned long long)P->S[i].lstep,P->S[i].val); fprintf(f,"\n");
  fprintf(f,"# %s\n",msg); for(const char*p=desc;*p;) { fprintf(f,"# "); while(*p&&*p!='\n') fputc(*p++,f); fputc('\n',f); if(*p) p++; } fclose(f);
}
static bool replay_read(const char* path,const Scenario** s,Plan* P,char* cls,u64* hash) {
  FILE* f=fopen(path,"r"); if(!f) return false; char prop[64],name[64]; unsigned long long seed,h; size_t n; 
  if(fscanf(f,"simreplay 1 property %63s scenario %63s seed %llx class %63s hash %llx",prop,name,&seed,cls,&h)!=5) return false;
  P->seed=seed; *hash=h; P->replay=true; *s=nullptr; for(size_t i=0;i<NSC;i++) if(!strcmp(SC[i].prop,prop)&&!strcmp(SC[i].name,name)) *s=&SC[i]; if(!*s) return false;
  if(fscanf(f," W %zu",&n)!=1) return false; for(size_t i=0;i<n;i++) { u32 v; if(fscanf(f," %u",&v)!=1) return false; P->W.push(v); }
  if(fscanf(f," F %zu",&n)!=1) return false; for(size_t i=0;i<n;i++) { FEnt e; if(fscanf(f," %u:%u:%u",&e.cls,&e.idx,&e.param)!=3) return false; P->F.push(e); }
  if(fscanf(f," S %zu",&n)!=1) return false; for(size_t i=0;i<n;i++) { SEnt e; unsigned long long l; if(fscanf(f," %u:%llu:%u",&e.tid,&l,&e.val)!=3) return false; e.lstep=l; P->S.push(e); }
  fclose(f); return true;
}
static double wall() { timespec t; rawcall(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&t); return (double)t.tv_sec+1e-9*(double)t.tv_nsec; }
// ---- minimisation: same violation class must persist ----
static int mintries; static double mindead;
static bool still(const Scenario* s,Plan* P,const char* cls) { if(mintries<=0||wall()>mindead) return false; mintries--; Result r; run_once(s,P,true,0,&r); return r.outcome==O_FAIL && !strcmp(r.cls,cls); }
template<class T> static void ddmin(const Scenario* s,Plan* P,Vec<T>& v,const char* cls) {
  size_t chunk=v.n; while(chunk>=1 && v.n && mintries>0) { bool any=false; for(size_t i=0;i<v.n;) { size_t k=chunk<v.n-i?chunk:v.n-i; Vec<T> old; old.set(v); memmove((void*)(v.p+i),(void*)(v.p+i+k),(v.n-i-k)*sizeof(T)); v.n-=k; if(still(s,P,cls)) any=true; else { v.set(old); i+=k; } __libc_free(old.p); if(mintries<=0||wall()>mindead) return; } if(chunk==1 && !any) break; chunk= chunk>1?chunk/2:1; if(chunk==1&&!any&&v.n>200) break; } }
static void minimise(const Scenario* s,Plan* P,const char* cls) {
  ddmin(s,P,P->F,cls);
  { Vec<SEnt> old; old.set(P->S); P->S.clear(); if(!still(s,P,cls)) P->S.set(old); }
  // workload: truncate, then zero and shrink values
  for(size_t cut=P->W.n;cut>=1&&mintries>0;cut/=2) { while(P->W.n>=cut && P->W.n) { size_t o=P->W.n; P->W.n-=cut; if(!still(s,P,cls)) { P->W.n=o; break; } } }
  for(size_t c=P->W.n/2;c>=1&&mintries>0;c/=2) for(size_t i=0;i+c<=P->W.n;i+=c) { bool nz=false; for(size_t k=i;k<i+c;k++) nz|=P->W[k]!=0; if(!nz) continue; Vec<u32> old; old.set(P->W); for(size_t k=i;k<i+c;k++) P->W[k]=0; if(!still(s,P,cls)) P->W.set(old); __libc_free(old.p); }
  for(size_t i=0;i<P->W.n&&mintries>0;i++) while(P->W[i]) { u32 o=P->W[i]; P->W[i]=o/2; if(!still(s,P,cls)) { P->W[i]=o; break; } }
  ddmin(s,P,P->F,cls); ddmin(s,P,P->S,cls);
}
// ---- statistics ----
struct Stat { u64 maxsteps; u64 evals, fpass, nontriv, steps, switches, simtime, allocs, diskops, threads, viol, benign; u64 sites[F_NCLASS], fired[F_NCLASS], runs_with[F_NCLASS]; } ST;
static Map<u64> seen_h, seen_s; static Map<u64> probes; struct PN { char n[48]; u64 c; }; static Vec<PN> pn; static Vec<PN> kn; struct KM { char m[400]; }; static Vec<KM> km; struct DS { char d[700]; }; static Vec<DS> samples;
static void addpn(Vec<PN>& v,const char* n,u64 c,const char* m) { for(size_t i=0;i<v.n;i++) if(!strcmp(v[i].n,n)) { v[i].c+=c; return; } PN p; copystr(p.n,48,n); p.c=c; v.push(p); if(m) { KM k; copystr(k.m,400,m); km.push(k); } }
static void account(bool fp) { Shared* s=G.sh; ST.evals++; ST.fpass+=fp; ST.nontriv+=s->nontriv||s->outcome==O_FAIL; ST.steps+=s->steps; if(s->outcome==O_OK && s->steps>ST.maxsteps) ST.maxsteps=s->steps; ST.switches+=s->switches; ST.simtime+=s->simtime; ST.allocs+=s->allocs; ST.diskops+=s->diskops; ST.threads+=s->threads; ST.benign+=s->benign;
  for(int i=0;i<F_NCLASS;i++) { ST.sites[i]+=s->sites[i]; ST.fired[i]+=s->fired[i]; ST.runs_with[i]+=s->fired[i]>0; }
  if(s->nontriv) { seen_h.get(s->hash|1)=1; if(s->shash) seen_s.get(s->shash|1)=1; }
  for(u32 i=0;i<s->nprobe;i++) addpn(pn,s->probe[i],s->probec[i],nullptr); for(u32 i=0;i<s->nknown;i++) addpn(kn,s->known[i],1,s->knownmsg[i]);
  if(samples.n<12 && s->nontriv && s->desclen) { bool dup=false; DS d; copystr(d.d,700,s->desc); for(size_t i=0;i<samples.n;i++) dup|=!strcmp(samples[i].d,d.d); if(!dup) samples.push(d); }
}
static void jstr(FILE* f,const char* s) { fputc('"',f); for(;*s;s++) { u8 c=(u8)*s; if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c=='\n') fprintf(f,"\\n"); else if(c<32||c>126) fprintf(f,"?"); else fputc(c,f); } fputc('"',f); }
static const char* FN[]={"alloc_refused","malloc_refused","thread_refused","spurious_wakeup","element_throws","user_failure","open_fails","read_fails","write_fails","metadata_op_fails","close_fails","crash"};
static void pin(int k) { cpu_set_t have; CPU_ZERO(&have); if(sched_getaffinity(0,sizeof have,&have)) return; int n=CPU_COUNT(&have); if(n<1) return; k%=n; for(int c=0;c<CPU_SETSIZE;c++) if(CPU_ISSET(c,&have) && k--==0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(c,&s); sched_setaffinity(0,sizeof s,&s); return; } }
static void load_known(const char* path) { FILE* f=fopen(path,"r"); if(!f) return; char l[2000]; while(fgets(l,sizeof l,f)) { char* k=strstr(l,"id="); if(strncmp(l,"known:",6)||!k) continue; k+=3; char* e=k; while(*e&&*e!=' '&&*e!='\n') e++; *e=0; char* c=(char*)__libc_malloc(strlen(k)+1); strcpy(c,k); sim::knownids.push(c); } fclose(f); }
// half of the planned faults go where this batch has placed the fewest so far (each process of a check prefers its own share)
static Vec<Ident> pident; static Map<u64> tried; static u64 nplaces;
static u32 guided_site(u32 cls,Rng& rr,u64 first,u64 stride) {
  u64 best=~0ull; u32 n=0; const Ident* b=nullptr; for(size_t i=0;i<pident.n;i++) { const Ident& e=pident[i]; if(e.cls!=cls) continue; u64* t0=tried.find(e.id); u64 c=(t0?*t0:0)*2+(stride>1 && mix(e.id)%stride!=first%stride); if(c<best) { best=c; n=0; } if(c==best && rr.below(++n)==0) b=&e; }
  if(!b) return rr.below(64); u64& t=tried.get(b->id); if(!t) nplaces++; t++; u32 k=rr.below(4); return k==0?b->first:k==1?b->last:b->pick; }
} // namespace rt
namespace sim {
int main(int argc,char** argv,const Scenario* sc,size_t n) {
  SC=sc; NSC=n; mem_init(); dl_iterate_phdr(text_cb,nullptr); G.guide=true;
  G.sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); G.cur=&TH[0]; TH[0].rt=1; 
  const char *prop=nullptr,*known=nullptr,*out=nullptr,*rfile=nullptr,*only=nullptr; u64 vseed=1,first=0,stride=1,runs=1000,index=0; double tlimit=1e9; bool trace=false; int cpu=-1; u64 fper=3; bool dumph=false;
  if(argc<2) { fprintf(stderr,"usage: %s run|replay|one|list ...\n",argv[0]); return 2; }
  for(int i=2;i<argc;i++) { const char* a=argv[i]; 
#define A(o) (!strcmp(a,o) && i+1<argc)
    if(A("--prop")) prop=argv[++i]; else if(A("--vseed")) vseed=strtoull(argv[++i],0,10); else if(A("--first")) first=strtoull(argv[++i],0,10); else if(A("--stride")) stride=strtoull(argv[++i],0,10);
    else if(A("--runs")) runs=strtoull(argv[++i],0,10); else if(A("--time")) tlimit=atof(argv[++i]); else if(A("--known")) known=argv[++i]; else if(A("--out")) out=argv[++i]; else if(A("--index")) index=strtoull(argv[++i],0,10); else if(A("--cpu")) cpu=atoi(argv[++i]); else if(A("--only")) only=argv[++i]; else if(A("--fper")) fper=strtoull(argv[++i],0,10); else if(!strcmp(a,"--trace")) trace=true; else if(!strcmp(a,"--hashes")) dumph=true; else rfile=a; }
  if(known) load_known(known); if(cpu>=0) pin(cpu); else pin(0);
  if(!strcmp(argv[1],"list")) { for(size_t i=0;i<n;i++) printf("%s %s\n",sc[i].prop,sc[i].name); return 0; }
  if(!strcmp(argv[1],"replay")) {
    Plan P; const Scenario* s; char cls[64]; u64 h; if(!rfile||!replay_read(rfile,&s,&P,cls,&h)) { fprintf(stderr,"cannot read replay file\n"); return 2; }
    G.trace=trace; Result r; run_once(s,&P,true,0,&r);
    printf("%s class=%s hash=%llx expected class=%s hash=%llx\n%s\n%s\n",r.outcome==O_FAIL?"REPRODUCED":"NOT-REPRODUCED",r.cls,(unsigned long long)r.hash,cls,(unsigned long long)h,G.sh->msg,G.sh->desc);
    return r.outcome==O_FAIL && !strcmp(r.cls,cls) && r.hash==h ? 0 : 1; }
  Vec<const Scenario*> mine; u32 wsum=0; for(size_t i=0;i<n;i++) if(!prop||!strcmp(sc[i].prop,prop)) { if(only&&strcmp(sc[i].name,only)) continue; mine.push(&sc[i]); wsum+=sc[i].weight; }
  if(!mine.n) { fprintf(stderr,"no scenario for %s\n",prop?prop:"?"); return 2; }
  bool one=!strcmp(argv[1],"one"); G.trace=one&&trace; double t0=wall(); int nv=0; u64 done=0;
  if(one) { first=index; runs=1; }
  FILE* fv=nullptr; char vpath[600]; if(out) { snprintf(vpath,sizeof vpath,"%s.viol",out); fv=fopen(vpath,"w"); }
  for(u64 k=0;k<runs;k++) {
    if(wall()-t0>tlimit) break; u64 idx=first+k*stride; done++;
    Rng rr; rr.s=mix(mix(vseed)^hstr(mine[0]->prop)^mix(idx*2654435761ull+17)); const Scenario* s=mine[0]; { u32 x=rr.below(wsum); for(size_t i=0;i<mine.n;i++) { if(x<mine[i]->weight) { s=mine[i]; break; } x-=mine[i]->weight; } }
    u64 seed=rr.next(); u64 passes= (s->fault_mask? fper:0); u64 psites[F_NCLASS]; u64 psteps=0;
    for(u64 p=0;p<=passes;p++) {
      Plan P; P.seed=seed; P.replay=false; 
      if(p>0) { u32 nf; u32 x=rr.below(10); nf= x<7?1:x<9?2:3; u32 cl[F_NCLASS],nc=0; for(u32 c=0;c<F_NCLASS;c++) if((s->fault_mask>>c&1) && psites[c]) cl[nc++]=c; if(!nc) break;
        for(u32 i=0;i<nf;i++) { FEnt e; e.cls=cl[rr.below(nc)]; u64 m=psites[e.cls]; bool guided=p*2>=passes && pident.n && rr.below(8); if(m>0xffffffffu) m=0xffffffffu; e.idx= guided ? guided_site(e.cls,rr,first,stride) : (e.cls==F_READ||e.cls==F_WRITE||e.cls==F_CRASH)&&rr.below(4)==0 ? (u32)(m-1-rr.below((u32)(m<3?m:3))) : rr.below((u32)m); e.param=(u32)(rr.next()>>16); P.F.push(e); } }
      Result r; run_once(s,&P,p>0,psteps,&r); account(p>0);
      if(dumph) printf("H %llu %llu %s %llx %d\n",(unsigned long long)idx,(unsigned long long)p,s->name,(unsigned long long)r.hash,r.outcome);
      if(one) { printf("pass %llu scenario=%s outcome=%d class=%s hash=%llx steps=%llu\n%s\n%s\n",(unsigned long long)p,s->name,r.outcome,r.cls,(unsigned long long)r.hash,(unsigned long long)G.sh->steps,G.sh->msg,G.sh->desc); for(int i=0;i<F_NCLASS;i++) if(G.sh->sites[i]) printf("  sites %s=%llu fired=%llu\n",FN[i],(unsigned long long)G.sh->sites[i],(unsigned long long)G.sh->fired[i]); for(u32 i=0;i<G.sh->nprobe;i++) printf("  probe %s=%llu\n",G.sh->probe[i],(unsigned long long)G.sh->probec[i]); for(u32 i=0;i<G.sh->nknown;i++) printf("  known %s: %s\n",G.sh->known[i],G.sh->knownmsg[i]); }
      if(p==0) { memcpy(psites,G.sh->sites,sizeof psites); psteps=G.sh->steps; pident.set(G.sh->ident,G.sh->nI); if(r.outcome==O_OK && !G.sh->desclen && samples.n<1) {} }
      if(r.outcome==O_FAIL) {
        ST.viol++; Plan Q; Q.seed=seed; Q.replay=true; Q.W.set(G.sh->W,G.sh->nW); Q.S.set(G.sh->S,G.sh->nS); Q.F.set(P.F);
        char msg[3000],desc[6000]; copystr(msg,sizeof msg,G.sh->msg); copystr(desc,sizeof desc,G.sh->desc); bool ovf=G.sh->overflow;
        Result r2; run_once(s,&P,p>0,p>0?psteps:0,&r2); // same seed again
        bool same= r2.outcome==O_FAIL && !strcmp(r2.cls,r.cls) && r2.hash==r.hash;
        Result r3; run_once(s,&Q,true,0,&r3); bool rep= r3.outcome==O_FAIL && !strcmp(r3.cls,r.cls);
        if(!same || !rep || ovf) { fprintf(stderr,"sim: NOT REPRODUCIBLE %s idx=%llu pass=%llu: %s/%llx then %s/%llx, replay %s/%llx: %s\n",s->name,(unsigned long long)idx,(unsigned long long)p,r.cls,(unsigned long long)r.hash,r2.cls,(unsigned long long)r2.hash,r3.cls,(unsigned long long)r3.hash,msg); if(!one) return 4; }
        size_t s0=Q.S.n,w0=Q.W.n,f0=Q.F.n; if(!one || out) { mintries=500; mindead=wall()+25; minimise(s,&Q,r.cls); }
        Result r4; run_once(s,&Q,true,0,&r4); Result r5; copystr(msg,sizeof msg,G.sh->msg); copystr(desc,sizeof desc,G.sh->desc); run_once(s,&Q,true,0,&r5);
        if(!one && (r4.outcome!=O_FAIL || r5.outcome!=O_FAIL || r4.hash!=r5.hash || strcmp(r4.cls,r.cls))) { fprintf(stderr,"sim: minimised run not reproducible (%s)\n",r.cls); return 4; }
        if(out) { char path[700]; snprintf(path,sizeof path,"%s.%d.replay",out,nv); replay_write(path,s,&Q,r4.cls,r4.hash,msg,desc);
          if(fv) { fprintf(fv,"{\"property\":\"%s\",\"scenario\":\"%s\",\"index\":%llu,\"pass\":%llu,\"seed\":\"%llx\",\"class\":\"%s\",\"replay\":\"%s\",\"hash\":\"%llx\",\"sched_entries\":[%zu,%zu],\"workload_entries\":[%zu,%zu],\"faults\":[%zu,%zu],\"message\":",s->prop,s->name,(unsigned long long)idx,(unsigned long long)p,(unsigned long long)seed,r4.cls,path,(unsigned long long)r4.hash,s0,Q.S.n,w0,Q.W.n,f0,Q.F.n); jstr(fv,msg); fprintf(fv,",\"description\":"); jstr(fv,desc); fprintf(fv,"}\n"); fflush(fv); } }
        nv++; if(p==0) break;
      }
    }
    if(nv>=1 && !one) break;
  }
  if(fv) fclose(fv);
  if(out) { char path[700]; snprintf(path,sizeof path,"%s.json",out); FILE* f=fopen(path,"w"); if(!f) return 3;
    fprintf(f,"{\"seeds\":%llu,\"runs\":%llu,\"fault_runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"allocs\":%llu,\"disk_ops\":%llu,\"threads\":%llu,\"short_or_interrupted_transfers\":%llu,\"violations\":%d,\"wall\":%.3f,\"fault_places\":%llu,\"maxsteps\":%llu,\"distinct\":%llu,\"distinct_schedules\":%llu",
      (unsigned long long)done,(unsigned long long)ST.evals,(unsigned long long)ST.fpass,(unsigned long long)ST.nontriv,(unsigned long long)ST.steps,(unsigned long long)ST.switches,(unsigned long long)ST.simtime,(unsigned long long)ST.allocs,(unsigned long long)ST.diskops,(unsigned long long)ST.threads,(unsigned long long)ST.benign,nv,wall()-t0,(unsigned long long)nplaces,(unsigned long long)ST.maxsteps,(unsigned long long)seen_h.n,(unsigned long long)seen_s.n);
    fprintf(f,",\"fault_sites\":{"); bool c=false; for(int i=0;i<F_NCLASS;i++) if(ST.sites[i]) { fprintf(f,"%s\"%s\":%llu",c?",":"",FN[i],(unsigned long long)ST.sites[i]); c=true; }
    fprintf(f,"},\"faults_fired\":{"); c=false; for(int i=0;i<F_NCLASS;i++) if(ST.sites[i]) { fprintf(f,"%s\"%s\":%llu",c?",":"",FN[i],(unsigned long long)ST.fired[i]); c=true; }
    fprintf(f,"},\"probes\":{"); for(size_t i=0;i<pn.n;i++) { if(i) fputc(',',f); jstr(f,pn[i].n); fprintf(f,":%llu",(unsigned long long)pn[i].c); }
    fprintf(f,"},\"known\":{"); for(size_t i=0;i<kn.n;i++) { if(i) fputc(',',f); jstr(f,kn[i].n); fputc(':',f); jstr(f,km[i].m); }
    fprintf(f,"},\"samples\":["); for(size_t i=0;i<samples.n;i++) { if(i) fputc(',',f); jstr(f,samples[i].d); }
    fprintf(f,"],\"hashes\":["); { u64 k=0; for(size_t i=0;i<seen_h.cap&&k<400000;i++) if(seen_h.t[i].k) { fprintf(f,"%s\"%llx\"",k?",":"",(unsigned long long)seen_h.t[i].k); k++; } } fprintf(f,"]}\n"); fclose(f); }
  return nv?1:0;
}
}
