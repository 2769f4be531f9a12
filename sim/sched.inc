// Choices, faults, failure reporting, scheduler, interposed threading and time.
namespace rt {
static Shared* SH() { return G.sh; }
static void copystr(char* d,size_t n,const char* s) { size_t i=0; for(;s[i]&&i+1<n;i++) d[i]=s[i]; d[i]=0; }
[[noreturn]] HIDDEN void failv(const char* cls,const char* fmt,va_list ap) {
  G.cur->rt++; G.active=0; Shared* s=G.sh;
  if(s->outcome==O_NONE) { s->outcome=O_FAIL; copystr(s->cls,sizeof s->cls,cls); vsnprintf(s->msg,sizeof s->msg,fmt,ap); hashin(mix(G.steps)); for(const char*p=cls;*p;p++) hashin((u64)*p); s->steps=G.steps; s->simtime=G.now; }
  if(G.trace) fprintf(stderr,"[%llu] FAIL %s: %s\n",(unsigned long long)G.steps,s->cls,s->msg);
  _exit(1);
}
[[noreturn]] HIDDEN void die(const char* cls,const char* fmt,...) { va_list ap; va_start(ap,fmt); failv(cls,fmt,ap); }

HIDDEN u32 wchoose(u32 n) {
  if(n<=1) return 0; Shared* s=G.sh; u32 v, i=s->nW;
  if(G.plan->replay) v= i<G.plan->W.n ? (G.plan->W[i]<n?G.plan->W[i]:n-1) : 0; else v=G.wr.below(n);
  if(i<WCAP) { s->W[i]=v; s->nW++; } else s->overflow=1;
  hashin(0x1000+v); return v;
}
static bool planned(FaultClass c,u64 idx,u32* param) {
  Plan* p=G.plan; for(size_t i=0;i<p->F.n;i++) if(p->F[i].cls==(u32)c && p->F[i].idx==idx) { if(param) *param=p->F[i].param; return true; } return false; }
// the place a fault site belongs to: the calls of the program's own code on the stack
static uintptr_t text_lo, text_hi;
static int text_cb(struct dl_phdr_info* i,size_t,void*) { for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_LOAD && (i->dlpi_phdr[k].p_flags&PF_X)) { text_lo=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; text_hi=text_lo+i->dlpi_phdr[k].p_memsz; } return 1; }
static bool in_text(uintptr_t p) { return p>=text_lo && p<text_hi; }
__attribute__((noinline)) static u64 place(FaultClass c) {
  const uintptr_t* sp=(const uintptr_t*)__builtin_frame_address(0); uintptr_t lo=(uintptr_t)sp, hi= lo>=0x120000000000ull? 0x120000000000ull+(16u<<20) : (uintptr_t)G.cur->stk+(1u<<20); if(hi<=lo || hi-lo>(16u<<20)) return c; u64 h=0; int n=0;
  for(const uintptr_t* f=sp;n<7;) { uintptr_t next=f[0], ra=f[1]; if(in_text(ra)) { h=mix(h^ra); n++; } if(next<=(uintptr_t)f || next+16>hi || next&7) break; f=(const uintptr_t*)next; }
  if(n<3) { h=0; n=0; for(const uintptr_t* p=sp;p<(const uintptr_t*)hi && p<sp+900 && n<4;p++) if(in_text(*p) && *p-5>=text_lo && *(const u8*)(*p-5)==0xe8) { h=mix(h^*p); n++; } }
  return mix(h*F_NCLASS+c)|1; }
static void record_place(FaultClass c,u64 i) { Shared* s=G.sh; u64 id=place(c); u32 k=(u32)(id%IHASH);
  while(s->ihash[k]) { Ident& e=s->ident[s->ihash[k]-1]; if(e.id==id && e.cls==(u32)c) { e.count++; e.last=(u32)i; if(mix(i*77+id)%e.count==0) e.pick=(u32)i; return; } k=(k+1)%IHASH; }
  if(s->nI<ICAP) { Ident& e=s->ident[s->nI++]; e.id=id; e.cls=c; e.count=1; e.first=e.last=e.pick=(u32)i; s->ihash[k]=s->nI; } }
HIDDEN bool fsite(FaultClass c,u32* param) {
  if(!G.cur->fon && c!=F_SPURIOUS) return false; u64 i=G.sh->sites[c]++; if(!G.faultpass && !G.plan->replay && G.guide) record_place(c,i);
  u32 dummy; if(!planned(c,i,param?param:&dummy)) return false;
  G.sh->fired[c]++; hashin(0x2000+c); hashin(i); if(G.trace) fprintf(stderr,"[%llu] t%d fault class %d site %llu fires\n",(unsigned long long)G.steps,G.cur->id,(int)c,(unsigned long long)i);
  return true;
}
// ---- record / replay of schedule decisions ----
static void srec(u32 val,u64 ls) { Shared* s=G.sh; if(s->nS<SCAP) { SEnt& e=s->S[s->nS++]; e.tid=(u32)G.cur->id; e.val=val; e.lstep=ls; } else s->overflow=1; }
static Vec<SEnt> rs[MAXT]; // replay entries per thread
static bool rget(u64 ls,u32* v) { Thread* t=G.cur; Vec<SEnt>& r=rs[t->id]; while(t->sidx<r.n && r[t->sidx].lstep<ls) t->sidx++; if(t->sidx<r.n && r[t->sidx].lstep==ls) { *v=r[t->sidx].val; t->sidx++; return true; } return false; }
static u64 geom(double mean) { if(mean<=1) return 1; double u=G.sr.unit(); double g=-__builtin_log(1-u)*mean; return 1+(u64)g; }
static void next_event() {
  u64 lim=G.limit;
  if(G.plan->replay) { Thread* t=G.cur; Vec<SEnt>& r=rs[t->id]; u64 ls=lstep(); while(t->sidx<r.n && r[t->sidx].lstep<=ls) t->sidx++; if(t->sidx<r.n) { u64 e=G.steps+(r[t->sidx].lstep-ls); if(e<lim) lim=e; } }
  else if(G.nlive>1) { u64 g; if(G.steps>G.fair_after) g=300; else if(G.policy==2) g=~0ull>>2; else g=geom(G.pgap); if(G.steps+g<lim) lim=G.steps+g; }
  G.next_ev=lim;
}
static bool runnable(Thread& t) { if(t.state==T_RUN) return true; if(t.state!=T_BLOCK) return false;
  if(t.wkind==W_PRED) return t.pred(t.parg); return t.deadline && G.now>=t.deadline; }
static void make_run(Thread& t,bool woken) { t.state=T_RUN; t.woken=woken; t.wobj=nullptr; }
static void handoff(Thread* to) { // the current thread gives the baton away
  Thread* me=G.cur; if(to==me) return;
  me->lbase=lstep(); G.cur=to; G.in_step=G.steps; G.sh->switches++; G.sh->shash=mix(G.sh->shash^(((u64)to->id<<48)^to->lbase^((u64)me->id<<56)));
  hashin(((u64)to->id<<32)^me->lbase);
  if(G.trace) fprintf(stderr,"[%llu] t%d -> t%d\n",(unsigned long long)G.steps,me->id,to->id);
  __atomic_store_n(&to->baton,1,__ATOMIC_SEQ_CST); rawcall(SYS_futex,(long)&to->baton,FUTEX_WAKE_PRIVATE,1);
}
static void await(Thread* me) { while(!__atomic_load_n(&me->baton,__ATOMIC_SEQ_CST)) rawcall(SYS_futex,(long)&me->baton,FUTEX_WAIT_PRIVATE,0,0); __atomic_store_n(&me->baton,0,__ATOMIC_SEQ_CST); }
static void switch_to(Thread* to) { Thread* me=G.cur; if(to!=me) { handoff(to); await(me); } if(me->state==T_BLOCK) make_run(*me,false); next_event(); }
static const char* wname(int k) { static const char* n[]={"-","mutex","condition variable","future/futex","join","sleep","once","scenario condition","rwlock","semaphore"}; return n[k]; }
static u32 cand[MAXT];
static u32 candidates(bool others) { u32 n=0; for(int i=0;i<G.nthreads;i++) { Thread& t=TH[i]; if(others && &t==G.cur) continue; if(runnable(t)) cand[n++]=(u32)i; } return n; }
static Thread* policy_pick(u32 n) { // among cand
  if(n==1) return &TH[cand[0]];
  if(G.steps>G.fair_after) { for(u32 i=0;i<n;i++) if((int)cand[i]>G.cur->id) return &TH[cand[i]]; return &TH[cand[0]]; }
  if(G.policy==1) { int b=-1; for(u32 i=0;i<n;i++) if(b<0||TH[cand[i]].prio>TH[cand[b]].prio) b=(int)i; return &TH[cand[b]]; }
  if(G.policy==3) { if(G.steps>G.victim_until) { G.victim=(int)G.sr.below((u32)G.nthreads); G.victim_until=G.steps+geom(400); }
    u32 m=0; for(u32 i=0;i<n;i++) if((int)cand[i]!=G.victim) cand[m++]=cand[i]; if(m) n=m; }
  return &TH[cand[G.sr.below(n)]];
}
static Thread* forced_default() { for(int k=1;k<=G.nthreads;k++) { int i=(G.cur->id+k)%G.nthreads; if(runnable(TH[i])) return &TH[i]; } return nullptr; }
static void deadlock() { char b[1800]; int o=0; for(int i=0;i<G.nthreads&&o<1500;i++) if(TH[i].state==T_BLOCK) o+=snprintf(b+o,sizeof b-o," t%d waits for %s;",i,wname(TH[i].wkind)); die("deadlock","no thread can ever run again:%s",b); }
HIDDEN void reschedule(bool) { // the current thread cannot (or will not) continue
  ++G.steps; u64 ls=lstep(); Thread* d;
  while(!(d=forced_default())) { u64 m=0; for(int i=0;i<G.nthreads;i++) if(TH[i].state==T_BLOCK && TH[i].deadline && (!m||TH[i].deadline<m)) m=TH[i].deadline; if(!m) deadlock(); if(m>G.now) G.now=m; }
  Thread* to=d; u32 v;
  if(G.plan->replay) { if(rget(ls,&v) && v<(u32)G.nthreads && runnable(TH[v])) to=&TH[v]; }
  else { u32 n=candidates(G.cur->state!=T_RUN?false:true); if(!n) { cand[0]=(u32)G.cur->id; n=1; } to=policy_pick(n); if(to!=d) srec((u32)to->id,ls); }
  if(G.steps>=G.limit) die("livelock","no progress within %llu scheduling steps",(unsigned long long)G.limit);
  if(G.cur->state==T_EXIT) { if(to->state==T_BLOCK) {} handoff(to); return; }
  switch_to(to);
}
static void preempt(u64 ls) { // record mode, current thread runnable
  if(G.nlive<=1||G.cur->quiet) return; 
  u32 n;
  if(G.policy==1 && G.steps<=G.fair_after) { n=candidates(false); } else n=candidates(true);
  if(!n) return; Thread* to=policy_pick(n); if(to!=G.cur) { srec((u32)to->id,ls); switch_to(to); }
}
HIDDEN void step_slow() {
  Rt g; if(G.steps>=G.limit) die("livelock","no progress within %llu scheduling steps",(unsigned long long)G.limit);
  G.now+=50; u64 ls=lstep();
  if(G.plan->replay) { u32 v; if(rget(ls,&v) && v<(u32)G.nthreads && &TH[v]!=G.cur && runnable(TH[v])) { switch_to(&TH[v]); return; } }
  else { if(G.policy==1) { if(G.nlive>1 && G.pct_left) { G.pct_left--; G.cur->prio=--G.minprio; } } preempt(ls); }
  next_event();
}
HIDDEN void sync_point() {
  if(!G.active) return; ++G.steps; G.now+=20;
  if(G.steps>=G.next_ev) { step_slow(); return; }
  if(!G.plan->replay && G.nlive>1 && G.psync>0 && G.steps<=G.fair_after && G.sr.unit()<G.psync) { Rt g; preempt(lstep()); }
}
static u32 decide(u32 n) { // a free choice of the environment other than which thread runs; default 0
  if(n<=1) return 0; ++G.steps; u64 ls=lstep(); u32 v=0;
  if(G.plan->replay) { if(!rget(ls,&v)||v>=n) v=0; } else { if(G.sr.below(3)==0) v=G.sr.below(n); if(v) srec(v,ls); }
  next_event(); return v;
}
// blocks the current thread; returns whether it was woken (false: its deadline passed / predicate true)
static bool block_on(int kind,const void* obj,u64 deadline) {
  Thread* t=G.cur; t->state=T_BLOCK; t->wkind=kind; t->wobj=obj; t->deadline=deadline; t->woken=false; t->wseq=++G.wseq; reschedule(true); t->deadline=0; return t->woken; }
static u32 wake(int kind,const void* obj,u32 n,bool choose_which) {
  u32 woken=0; while(woken<n) { Thread* w[MAXT]; u32 m=0; for(int i=0;i<G.nthreads;i++) { Thread& t=TH[i]; if(t.state==T_BLOCK && t.wkind==kind && t.wobj==obj) { u32 j=m++; while(j && w[j-1]->wseq>t.wseq) { w[j]=w[j-1]; j--; } w[j]=&t; } }
    if(!m) break; u32 k = choose_which&&n==1 ? decide(m) : 0; make_run(*w[k],true); woken++; }
  return woken; }
static void check_obj(const void* o,const char* what) { if(in_arena(o) && !sim::addr_live(o,1)) { Rt g; die("use-after-free","%s at %p used after its memory was released",what,o); } }

// ---- mutexes ----
static bool simthr() { return G.on && !G.cur->rt; }
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE; }
static int mlock(pthread_mutex_t* m,bool tryl,u64 deadline,bool point) {
  check_obj(m,"mutex"); if(point) sync_point(); Rt g; Thread* t=G.cur;
  for(;;) { Sync* s=sync_of(m,true);
    if(!s->owner1) { s->owner1=t->id+1; s->depth=1; if(s->vc) vmax(t->vc,s->vc); return 0; }
    if(s->owner1==t->id+1 && recursive(m)) { s->depth++; return 0; }
    if(s->owner1==t->id+1 && !tryl && !deadline) die("deadlock","thread %d locks a mutex it already holds",t->id);
    if(tryl) return EBUSY;
    if(deadline && G.now>=deadline) return ETIMEDOUT;
    block_on(W_MUTEX,m,deadline);
  } }
static int munlock(pthread_mutex_t* m) { Rt g; Sync* s=sync_of(m,false); if(!s||s->owner1!=G.cur->id+1) die("bad-unlock","thread %d unlocks a mutex it does not hold",G.cur->id);
  if(--s->depth) return 0; vc_release(m); s=sync_of(m,false); s->owner1=0; wake(W_MUTEX,m,~0u,false); return 0; }
static int cwait(pthread_cond_t* c,pthread_mutex_t* m,u64 deadline) {
  check_obj(c,"condition variable"); sync_point(); Thread* t=G.cur; bool to=false; bool spurious; { Rt g; spurious=!t->quiet && fsite(F_SPURIOUS,nullptr); }
  munlock(m);
  { Rt g; if(spurious) { reschedule(false); } else { bool w=block_on(W_COND,c,deadline); to=!w && deadline; } }
  { Thread* q=G.cur; (void)q; mlock(m,false,0,false); }
  if(G.active) sync_point();
  return to?ETIMEDOUT:0; }
static u64 tsns(const timespec* t) { return (u64)t->tv_sec*1000000000ull+(u64)t->tv_nsec; }
static const u64 REAL0=1700000000ull*1000000000ull;
static u64 abs_deadline(clockid_t c,const timespec* t) { u64 v=tsns(t); if(c==CLOCK_REALTIME) v= v>REAL0?v-REAL0:1; return v?v:1; }

// ---- threads ----
static pthread_key_t ekey; static bool ekey_ok;
static const u64 STK0=0x110000000000ull, STKSZ=1u<<20, STKFILL=256u<<10; static bool stk_used[MAXT];
static char* stk_get(int* slot) { for(int i=0;i<MAXT;i++) if(!stk_used[i]) { stk_used[i]=true; *slot=i; char* b=(char*)(STK0+(u64)i*(STKSZ+65536)); void* p=mmap(b,STKSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(p!=b) die("harness-memory","no memory for a stack");
    memset(b+STKSZ-STKFILL,0xCB,STKFILL); return b; } die("harness-threads","too many threads"); }
static void thread_exited(void*) {
  Thread* t=G.cur; if(!G.on) return; { Rt g0; t->vc[t->id]++; }
  t->rt++; G.active=0; t->state=T_EXIT; G.nlive--; if(t->detached) G.nunjoined--; 
  for(int i=0;i<G.nthreads;i++) if(TH[i].state==T_BLOCK && TH[i].wkind==W_JOIN && TH[i].wobj==t) make_run(TH[i],true);
  G.sh->shash=mix(G.sh->shash^(u64)t->id);
  if(t->id==0) { return; }
  reschedule(true); // hands the baton on; the real thread ends
}
static void* trampoline(void* a) { Thread* t=(Thread*)a; await(t); pthread_setspecific(ekey,t); G.active=1; t->rt=0; next_event();
  t->state=T_RUN; void* r=t->fn(t->arg); return r; }
static int (*real_create)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static int (*real_join)(pthread_t,void**);
static void* sym(const char* n) { return dlsym(RTLD_NEXT,n); }
static void ekey_make() { if(!ekey_ok) { pthread_key_create(&ekey,thread_exited); ekey_ok=true; } }
static int tcreate(pthread_t* out,void*(*fn)(void*),void* arg,bool detached) {
  sync_point(); Rt g; if(fsite(F_THREAD,nullptr)) return EAGAIN;
  if(G.nthreads>=MAXT) { return EAGAIN; }
  Thread* p=G.cur; Thread* t=&TH[G.nthreads]; memset((void*)t,0,sizeof *t); t->id=G.nthreads++; t->fon=G.fon_child; t->fn=fn; t->arg=arg; t->detached=detached;
  memcpy(t->vc,p->vc,sizeof t->vc); t->vc[t->id]=1; p->vc[p->id]++; t->prio=(int)G.sr.below(1000)+10; t->state=T_RUN; t->rt=1;
  int slot; t->stk=stk_get(&slot); race_clear(t->stk,STKSZ); G.nlive++; G.nunjoined++; G.sh->threads++;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,t->stk,STKSZ);
  int r=real_create(&t->real,&at,trampoline,t); pthread_attr_destroy(&at);
  if(r) die("harness-threads","real pthread_create failed: %d",r);
  *out=t->real; next_event(); G.sh->shash=mix(G.sh->shash^0x77);
  return 0; }
static Thread* by_handle(pthread_t h) { for(int i=G.nthreads-1;i>=0;i--) if(TH[i].state!=T_UNUSED && TH[i].state!=T_JOINED && pthread_equal(TH[i].real,h)) return &TH[i]; return nullptr; }
static int tjoin(pthread_t h,void** r) {
  sync_point(); Rt g; Thread* t=by_handle(h); if(!t||t==G.cur) return t?EDEADLK:ESRCH; 
  while(t->state!=T_EXIT) block_on(W_JOIN,t,0);
  vmax(G.cur->vc,t->vc); void* v; real_join(t->real,&v); t->state=T_JOINED; t->joined=true; G.nunjoined--; for(int i=0;i<MAXT;i++) if(t->stk==(char*)(STK0+(u64)i*(STKSZ+65536))) stk_used[i]=false;
  if(r) *r=v; return 0; }
} // namespace rt

extern "C" {
#define REAL(ret,name,...) static ret (*real)(__VA_ARGS__); if(!real) *(void**)&real=dlsym(RTLD_NEXT,#name)
SIM_API int pthread_create(pthread_t* o,const pthread_attr_t* a,void*(*f)(void*),void* arg) {
  if(!simthr()) { REAL(int,pthread_create,pthread_t*,const pthread_attr_t*,void*(*)(void*),void*); return real(o,a,f,arg); }
  int ds=0; if(a) pthread_attr_getdetachstate(a,&ds); return tcreate(o,f,arg,ds==PTHREAD_CREATE_DETACHED); }
SIM_API int pthread_join(pthread_t h,void** r) { if(!simthr()) { REAL(int,pthread_join,pthread_t,void**); return real(h,r); } return tjoin(h,r); }
SIM_API int pthread_detach(pthread_t h) { if(!simthr()) { REAL(int,pthread_detach,pthread_t); return real(h); } sync_point(); Rt g; Thread* t=by_handle(h); if(!t) return ESRCH; t->detached=true; if(t->state==T_EXIT) G.nunjoined--; return 0; }
SIM_API int pthread_mutex_lock(pthread_mutex_t* m) { if(!simthr()) { if(G.on) return 0; REAL(int,pthread_mutex_lock,pthread_mutex_t*); return real(m); } return mlock(m,false,0,true); }
SIM_API int pthread_mutex_trylock(pthread_mutex_t* m) { if(!simthr()) { if(G.on) return 0; REAL(int,pthread_mutex_trylock,pthread_mutex_t*); return real(m); } return mlock(m,true,0,true); }
SIM_API int pthread_mutex_timedlock(pthread_mutex_t* m,const timespec* t) { if(!simthr()) return 0; return mlock(m,false,abs_deadline(CLOCK_REALTIME,t),true); }
SIM_API int pthread_mutex_clocklock(pthread_mutex_t* m,clockid_t c,const timespec* t) { if(!simthr()) return 0; return mlock(m,false,abs_deadline(c,t),true); }
SIM_API int pthread_mutex_unlock(pthread_mutex_t* m) { if(!simthr()) { if(G.on) return 0; REAL(int,pthread_mutex_unlock,pthread_mutex_t*); return real(m); } check_obj(m,"mutex"); int r=munlock(m); sync_point(); return r; }
SIM_API int pthread_mutex_destroy(pthread_mutex_t* m) { if(!simthr()) return 0; Rt g; Sync* s=sync_of(m,false); if(s) { if(s->owner1) die("destroyed-in-use","a mutex is destroyed while thread %d holds it",s->owner1-1); if(s->vc) memset(s->vc,0,4*CLKT); } return 0; }
SIM_API int pthread_cond_init(pthread_cond_t* c,const pthread_condattr_t* a) { if(!simthr()) { REAL(int,pthread_cond_init,pthread_cond_t*,const pthread_condattr_t*); return real(c,a); } memset(c,0,sizeof *c); return 0; }
SIM_API int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m) { if(!simthr()) abort(); return cwait(c,m,0); }
SIM_API int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const timespec* t) { if(!simthr()) abort(); return cwait(c,m,abs_deadline(CLOCK_REALTIME,t)); }
SIM_API int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const timespec* t) { if(!simthr()) abort(); return cwait(c,m,abs_deadline(k,t)); }
SIM_API int pthread_cond_signal(pthread_cond_t* c) { if(!simthr()) return 0; check_obj(c,"condition variable"); sync_point(); { Rt g; wake(W_COND,c,1,true); } sync_point(); return 0; }
SIM_API int pthread_cond_broadcast(pthread_cond_t* c) { if(!simthr()) return 0; check_obj(c,"condition variable"); sync_point(); { Rt g; wake(W_COND,c,~0u,false); } sync_point(); return 0; }
SIM_API int pthread_cond_destroy(pthread_cond_t* c) { if(!simthr()) return 0; Rt g; for(int i=0;i<G.nthreads;i++) if(TH[i].state==T_BLOCK && TH[i].wkind==W_COND && TH[i].wobj==c) die("destroyed-in-use","a condition variable is destroyed while thread %d waits on it",i); return 0; }
SIM_API int pthread_once(pthread_once_t* o,void(*f)()) {
  if(!simthr()) { if(*o==2) return 0; *o=1; struct R { pthread_once_t* o; bool ok; ~R() { *o= ok?2:0; } } r={o,false}; f(); r.ok=true; return 0; }
  check_obj(o,"once flag"); sync_point(); 
  for(;;) { { Rt g; int v=*o; if(v==2) { vc_acquire(o); return 0; } if(v==1) { block_on(W_ONCE,o,0); continue; } *o=1; }
    struct R { pthread_once_t* o; bool ok; ~R() { Rt g; *o= ok?2:0; vc_release(o); wake(W_ONCE,o,~0u,false); } } r={o,false}; f(); r.ok=true; break; }
  sync_point(); return 0; }
// read-write locks
static int rwl(pthread_rwlock_t* l,bool wr,bool tryl) { check_obj(l,"rwlock"); sync_point(); Rt g; for(;;) { Sync* s=sync_of(l,true); if(!s->owner1 && (!wr||!s->readers)) { if(wr) s->owner1=G.cur->id+1; else s->readers++; if(s->vc) vmax(G.cur->vc,s->vc); return 0; } if(tryl) return EBUSY; block_on(W_RW,l,0); } }
SIM_API int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if(!simthr()) return 0; return rwl(l,false,false); }
SIM_API int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if(!simthr()) return 0; return rwl(l,true,false); }
SIM_API int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if(!simthr()) return 0; return rwl(l,false,true); }
SIM_API int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if(!simthr()) return 0; return rwl(l,true,true); }
SIM_API int pthread_rwlock_unlock(pthread_rwlock_t* l) { if(!simthr()) return 0; { Rt g; vc_release(l); Sync* s=sync_of(l,true); if(s->owner1) s->owner1=0; else if(s->readers) s->readers--; wake(W_RW,l,~0u,false); } sync_point(); return 0; }

// futex (libstdc++ futures, static-initialisation guards)
SIM_API long syscall(long n,...) { va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(n!=SYS_futex || !simthr()) return rawerr(rawcall(n,a,b,c,d,e,f));
  int op=(int)b&127; u32* addr=(u32*)a; check_obj(addr,"futex");
  if((op&~FUTEX_CLOCK_REALTIME)==FUTEX_WAIT || (op&~FUTEX_CLOCK_REALTIME)==FUTEX_WAIT_BITSET) {
    sync_point(); Rt g; if(*addr!=(u32)c) { g.e=EAGAIN; return -1; } u64 dl=0; const timespec* ts=(const timespec*)d;
    if(ts) { if((op&127)==FUTEX_WAIT) dl=G.now+tsns(ts)+1; else dl=abs_deadline(((int)b&FUTEX_CLOCK_REALTIME)?CLOCK_REALTIME:CLOCK_MONOTONIC,ts); }
    bool w=block_on(W_FUTEX,addr,dl); if(!w && dl) { g.e=ETIMEDOUT; return -1; } return 0; }
  if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET) { long r; { Rt g; r=wake(W_FUTEX,addr,(u32)c,false); } sync_point(); return r; }
  return rawerr(rawcall(n,a,b,c,d,e,f)); }
// guards of function-local statics: real implementation plus a happens-before edge
SIM_API int __cxa_guard_acquire(long long* g) { REAL(int,__cxa_guard_acquire,long long*); if(simthr()) sync_point(); int r=real(g); if(simthr()) { Rt x; vc_acquire(g); } return r; }
SIM_API void __cxa_guard_release(long long* g) { REAL(void,__cxa_guard_release,long long*); if(simthr()) { Rt x; vc_release(g); } real(g); if(simthr()) sync_point(); }

// time
static u64 rnow(clockid_t c) { return c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE||c==CLOCK_TAI?REAL0+G.now:G.now+1; }
SIM_API int clock_gettime(clockid_t c,timespec* t) { if(!G.on) return (int)rawerr(rawcall(SYS_clock_gettime,c,(long)t)); u64 v=rnow(c); t->tv_sec=(time_t)(v/1000000000ull); t->tv_nsec=(long)(v%1000000000ull); return 0; }
SIM_API int gettimeofday(struct timeval* t,void*) { if(!G.on) return (int)rawerr(rawcall(SYS_gettimeofday,(long)t,0)); u64 v=rnow(CLOCK_REALTIME); t->tv_sec=(time_t)(v/1000000000ull); t->tv_usec=(long)(v%1000000000ull/1000); return 0; }
SIM_API time_t time(time_t* o) { time_t v; if(!G.on) { timespec t; rawcall(SYS_clock_gettime,CLOCK_REALTIME,(long)&t); v=t.tv_sec; } else v=(time_t)(rnow(CLOCK_REALTIME)/1000000000ull); if(o) *o=v; return v; }
SIM_API int nanosleep(const timespec* t,timespec*) { if(!simthr()) return (int)rawerr(rawcall(SYS_nanosleep,(long)t,0)); sync_point(); Rt g; block_on(W_SLEEP,nullptr,G.now+tsns(t)+1); return 0; }
SIM_API int clock_nanosleep(clockid_t c,int fl,const timespec* t,timespec*) { if(!simthr()) return 0; sync_point(); Rt g; block_on(W_SLEEP,nullptr,(fl&TIMER_ABSTIME)?abs_deadline(c,t):G.now+tsns(t)+1); return 0; }
SIM_API int usleep(useconds_t u) { timespec t={(time_t)(u/1000000),(long)(u%1000000)*1000}; return nanosleep(&t,nullptr); }
SIM_API int sched_yield() { if(!simthr()) return (int)rawerr(rawcall(SYS_sched_yield)); Rt g; G.cur->prio=--G.minprio; if(G.nlive>1) reschedule(false); return 0; }
// the machine: the number of processors is drawn from the seed
static int ncores() { static const int v[]={1,2,3,4,8,0,16,64}; return v[mix(G.plan->seed^0xc0de5)&7]; }
SIM_API int get_nprocs() { if(!G.on) { REAL(int,get_nprocs,void); return real(); } return ncores(); }
SIM_API int get_nprocs_conf() { if(!G.on) { REAL(int,get_nprocs_conf,void); return real(); } return ncores(); }
SIM_API long sysconf(int n) { REAL(long,sysconf,int); if(G.on && (n==_SC_NPROCESSORS_ONLN||n==_SC_NPROCESSORS_CONF)) return ncores()?ncores():-1; return real(n); }
SIM_API int sched_getaffinity(pid_t p,size_t z,cpu_set_t* m) { if(!G.on) return (int)rawerr(rawcall(SYS_sched_getaffinity,p,(long)z,(long)m)); memset(m,0,z); int k=ncores()?ncores():1; for(int i=0;i<k && (size_t)i<z*8;i++) CPU_SET_S(i,z,m); return 0; }
SIM_API unsigned _ZNSt13random_device9_M_getvalEv(void*) { static u64 k=0; if(!G.on) return 4; return (unsigned)mix(G.plan->seed^0x5eed^(++k<<20)); }
SIM_API ssize_t getrandom(void* b,size_t n,unsigned f) { if(!G.on) return rawerr(rawcall(SYS_getrandom,(long)b,(long)n,f)); static u64 k=0; for(size_t i=0;i<n;i++) ((u8*)b)[i]=(u8)mix(G.plan->seed^0x4a4d^(++k<<20)); return (ssize_t)n; }
SIM_API int getentropy(void* b,size_t n) { getrandom(b,n,0); return 0; }
}
namespace sim {
uint32_t choose(uint32_t n) { Rt g; return wchoose(n); }
double real(double lo,double hi) { Rt g; return lo+(hi-lo)*(double)wchoose(1u<<16)/65535.0; }
bool fault(FaultClass c,uint32_t* p) { if(G.cur->quiet) return false; Rt g; return fsite(c,p); }
void faults_on(bool on) { G.cur->fon=on; }
bool faults_enabled() { return G.cur->fon; }
void faults_default(bool on) { G.fon_child=on; }
uint64_t fired(FaultClass c) { return G.sh->fired[c]; }
uint64_t fired_total() { u64 n=0; for(int i=0;i<F_NCLASS;i++) n+=G.sh->fired[i]; return n; }
void fail(const char* cls,const char* fmt,...) { va_list ap; va_start(ap,fmt); failv(cls,fmt,ap); }
static Vec<char*> knownids;
bool is_known(const char* id) { for(size_t i=0;i<knownids.n;i++) if(!strcmp(knownids[i],id)) return true; return false; }
void known(const char* id,const char* fmt,...) { Rt g; Shared* s=G.sh; for(u32 i=0;i<s->nknown;i++) if(!strcmp(s->known[i],id)) return; if(s->nknown<NKNOWN) { copystr(s->known[s->nknown],48,id); va_list ap; va_start(ap,fmt); vsnprintf(s->knownmsg[s->nknown],400,fmt,ap); va_end(ap); s->nknown++; } }
void probe(const char* n) { Rt g; Shared* s=G.sh; for(u32 i=0;i<s->nprobe;i++) if(!strcmp(s->probe[i],n)) { s->probec[i]++; return; } if(s->nprobe<NPROBE) { copystr(s->probe[s->nprobe],48,n); s->probec[s->nprobe++]=1; } }
void nontrivial() { G.sh->nontriv=1; }
void event(const char* w,int64_t a,int64_t b,int64_t c) { Rt g; for(const char*p=w;*p;p++) hashin((u64)*p); hashin((u64)a); hashin((u64)b); hashin((u64)c); if(G.trace) fprintf(stderr,"[%llu] t%d %s %lld %lld %lld\n",(unsigned long long)G.steps,G.cur->id,w,(long long)a,(long long)b,(long long)c); }
void describe(const char* fmt,...) { Rt g; Shared* s=G.sh; va_list ap; va_start(ap,fmt); if(s->desclen+2<sizeof s->desc) { int k=vsnprintf(s->desc+s->desclen,sizeof s->desc-s->desclen,fmt,ap); if(k>0) s->desclen+=(u32)k; if(s->desclen>=sizeof s->desc) s->desclen=sizeof s->desc-1; } va_end(ap); }
void hash_bytes(const void* p,size_t n) { Rt g; const u8* b=(const u8*)p; u64 h=n; for(size_t i=0;i<n;i++) h=h*1099511628211ull^b[i]; hashin(h); }
static Vec<Note> nts;
void note(int k,int64_t a,int64_t b,int64_t c) { Rt g; Note n={k,G.cur->id,G.steps,a,b,c}; nts.push(n); hashin(mix((u64)k)^mix((u64)a+1)^mix((u64)b+7)^mix((u64)c+13)); if(G.trace) fprintf(stderr,"[%llu] t%d note %d: %lld %lld %lld\n",(unsigned long long)G.steps,G.cur->id,k,(long long)a,(long long)b,(long long)c); }
size_t notes() { return nts.n; }
Note note_at(size_t i) { return nts[i]; }
int self() { return G.cur->id; }
uint64_t step() { return G.steps; }
void yield() { sync_point(); }
unsigned threads_alive() { return (unsigned)G.nlive; }
unsigned threads_started() { return (unsigned)G.nthreads-1; }
unsigned threads_runnable() { Rt g; unsigned n=0; for(int i=0;i<G.nthreads;i++) n+=runnable(TH[i]); return n; }
void race_detection(bool on) { G.race_on=on; }
void block_until(bool (*pred)(void*),void* arg,const char*) { sync_point(); Rt g; if(pred(arg)) return; Thread* t=G.cur; while(!pred(arg)) { t->pred=pred; t->parg=arg; block_on(W_PRED,nullptr,0); } }
uint64_t now_ns() { return G.now; }
Quiet::Quiet() { G.cur->quiet++; G.active=0; }
Quiet::~Quiet() { G.cur->quiet--; G.active=G.on && !G.cur->rt && !G.cur->quiet; }
}
