// Runtime for -fsanitize=thread instrumentation: every access is a scheduling step; happens-before race detector.
namespace rt {
struct Rec { u32 clk; u8 tid, mask, flags, pad; const void* pc; };  // flags: 1 write, 2 atomic
struct Cell { Rec r[5]; };
struct Page { Cell c[512]; };
static Map<Page*> pages; static u64 lastpn; static Page* lastpg;
static inline Page* page_of(u64 pn,bool create) {
  if(likely(pn==lastpn && lastpg)) return lastpg;
  Page** pp=pages.find(pn+1); Page* p=pp?*pp:nullptr;
  if(!p) { if(!create) return nullptr; p=(Page*)mmap(nullptr,sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if((void*)p==MAP_FAILED) die("harness-memory","no memory for race shadow"); pages.get(pn+1)=p; }
  lastpn=pn; lastpg=p; return p;
}
HIDDEN void race_clear(const void* a,size_t n) { u64 x=(u64)a&~7ull, e=(u64)a+n; while(x<e) { u64 pe=(x|4095)+1; if(pe>e) pe=e; Page* p=page_of(x>>12,false); if(p) for(;x<pe;x+=8) memset(&p->c[(x>>3)&511],0,sizeof(Cell)); x=pe; } }
static Map<Sync> syncs;
HIDDEN Sync* sync_of(const void* a,bool create) { return create?&syncs.get((u64)a):syncs.find((u64)a); }
static inline int NT() { return G.nthreads; }
static void vmax(u32* d,const u32* s) { int n=NT(); for(int i=0;i<n;i++) if(s[i]>d[i]) d[i]=s[i]; }
static u32* svc(Sync* s) { if(!s->vc) s->vc=(u32*)__libc_calloc(CLKT,4); return s->vc; }
HIDDEN void vc_acquire(const void* a) { Sync* s=sync_of(a,false); if(s && s->vc) vmax(G.cur->vc,s->vc); }
HIDDEN void vc_release(const void* a) { Sync* s=sync_of(a,true); vmax(svc(s),G.cur->vc); G.cur->vc[G.cur->id]++; }
HIDDEN void vc_release_store(const void* a) { Sync* s=sync_of(a,true); memcpy(svc(s),G.cur->vc,sizeof(u32)*CLKT); G.cur->vc[G.cur->id]++; }

static void race_die(u64 x,u8 m,bool w,bool at,const void* pc,const Rec& r,int tid) {
  die("data-race","threads %d and %d access %p without synchronisation: %s%s pc=%p, earlier %s%s pc=%p (bytes mask %02x)",
    tid,(int)r.tid,(void*)x,at?"atomic ":"",w?"write":"read",pc,(r.flags&2)?"atomic ":"",(r.flags&1)?"write":"read",r.pc,m);
}
static inline void race_cell(u64 x,u8 m,bool w,bool at,const void* pc) {
  Page* pg=page_of(x>>12,true); Cell& c=pg->c[(x>>3)&511]; Thread* t=G.cur; int me=t->id; u32 clk=t->vc[me];
  int freei=-1, old=-1; u32 oldclk=~0u; 
  for(int i=0;i<5;i++) { Rec& r=c.r[i];
    if(!r.mask) { if(freei<0) freei=i; continue; }
    if(r.tid==me) { // replace own record covered by this access
      if((r.mask&~m)==0 && (w||!(r.flags&1)) && (!at||(r.flags&2))) { r.mask=0; if(freei<0) freei=i; } else if(r.clk==clk && r.mask==m && (r.flags&1)>=(u8)w && (!(r.flags&2)||at)) { return; }
      continue; }
    bool ordered = r.clk<=t->vc[r.tid];
    if(!ordered && (r.mask&m) && (w||(r.flags&1)) && !(at&&(r.flags&2))) { Rt g; race_die(x,m,w,at,pc,r,me); }
    if(ordered && w && (r.mask&~m)==0) { r.mask=0; if(freei<0) freei=i; }
    else if(ordered && r.clk<oldclk) { oldclk=r.clk; old=i; }
  }
  if(freei<0) freei = old>=0?old:(int)(G.dr.next()%5);
  Rec& r=c.r[freei]; r.clk=clk; r.tid=(u8)me; r.mask=m; r.flags=(u8)((w?1:0)|(at?2:0)); r.pc=pc;
}
HIDDEN void race_access(const void* a,size_t n,bool w,bool at,const void* pc) {
  if(G.nunjoined<=1 || !G.race_on) return;
  u64 x=(u64)a; 
  while(n) { u64 off=x&7,k=8-off; if(k>n) k=n; race_cell(x&~7ull,(u8)(((1u<<k)-1)<<off),w,at,pc); x+=k; n-=k; }
}
static inline void access(const void* a,size_t n,bool w,const void* pc) {
  if(!G.active) return;
  step();
  if(in_arena(a)) access_check(a,n,w,pc); else if(unlikely((u64)a<4096)) { Rt g; die("null-access","%s of %zu bytes at %p, pc=%p",w?"write":"read",n,a,pc); }
  if(unlikely(G.nunjoined>1)) race_access(a,n,w,false,pc);
}
static inline bool acq(int mo) { return mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static void at_pre(const void* a,size_t n,bool w,const void* pc) { sync_point(); Rt g; if(in_arena(a)) access_check(a,n,w,pc); race_access(a,n,w,true,pc); }
static void at_load(const void* a,int mo) { if(G.nunjoined<=1) return; Rt g; Sync* s=sync_of(a,false); if(!s||!s->vc) return; if(acq(mo)) vmax(G.cur->vc,s->vc); else { if(!G.cur->has_acq) { memset(G.cur->acqf,0,sizeof G.cur->acqf); G.cur->has_acq=true; } vmax(G.cur->acqf,s->vc); } }
static void at_store(const void* a,int mo,bool rmw) { if(G.nunjoined<=1) { Rt g; Sync* s=sync_of(a,false); if(rel(mo) && G.nthreads>0) { if(rmw) vc_release(a); else vc_release_store(a);} else if(s&&s->vc&&!rmw) memset(s->vc,0,4*CLKT); return; }
  Rt g; if(rel(mo)) { if(rmw) vc_release(a); else vc_release_store(a); return; }
  Sync* s=sync_of(a,G.cur->has_rel); 
  if(G.cur->has_rel) { u32* v=svc(s); if(rmw) vmax(v,G.cur->relf); else memcpy(v,G.cur->relf,4*CLKT); }
  else if(s&&s->vc&&!rmw) memset(s->vc,0,4*CLKT); }
} // namespace rt
extern "C" {
SIM_API void __tsan_init() {}
SIM_API void __tsan_func_entry(void*) {}
SIM_API void __tsan_func_exit() {}
#define RW(n) SIM_API void __tsan_read##n(void* a) { access(a,n,false,PC); } SIM_API void __tsan_write##n(void* a) { access(a,n,true,PC); } \
  SIM_API void __tsan_unaligned_read##n(void* a) { access(a,n,false,PC); } SIM_API void __tsan_unaligned_write##n(void* a) { access(a,n,true,PC); } \
  SIM_API void __tsan_volatile_read##n(void* a) { access(a,n,false,PC); } SIM_API void __tsan_volatile_write##n(void* a) { access(a,n,true,PC); } \
  SIM_API void __tsan_unaligned_volatile_read##n(void* a) { access(a,n,false,PC); } SIM_API void __tsan_unaligned_volatile_write##n(void* a) { access(a,n,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
SIM_API void __tsan_read_range(void* a,size_t n) { access(a,n,false,PC); }
SIM_API void __tsan_write_range(void* a,size_t n) { access(a,n,true,PC); }
SIM_API void __tsan_vptr_update(void** p,void* v) { if(*p!=v) access(p,8,true,PC); }
SIM_API void __tsan_vptr_read(void** p) { access(p,8,false,PC); }
#define AT(N,T) \
SIM_API T __tsan_atomic##N##_load(const volatile T* a,int mo) { if(!G.active) return __atomic_load_n(a,__ATOMIC_SEQ_CST); at_pre((void*)a,sizeof(T),false,PC); T v=*a; at_load((void*)a,mo); return v; } \
SIM_API void __tsan_atomic##N##_store(volatile T* a,T v,int mo) { if(!G.active) { __atomic_store_n(a,v,__ATOMIC_SEQ_CST); return; } at_pre((void*)a,sizeof(T),true,PC); *a=v; at_store((void*)a,mo,false); } \
SIM_API T __tsan_atomic##N##_exchange(volatile T* a,T v,int mo) { if(!G.active) return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); at_pre((void*)a,sizeof(T),true,PC); T o=*a; at_load((void*)a,mo); *a=v; at_store((void*)a,mo,true); return o; } \
SIM_API int __tsan_atomic##N##_compare_exchange_strong(volatile T* a,T* c,T v,int mo,int fmo) { if(!G.active) return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); \
  at_pre((void*)a,sizeof(T),*a==*c,PC); T o=*a; if(o==*c) { at_load((void*)a,mo); *a=v; at_store((void*)a,mo,true); return 1; } at_load((void*)a,fmo); *c=o; return 0; } \
SIM_API int __tsan_atomic##N##_compare_exchange_weak(volatile T* a,T* c,T v,int mo,int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a,c,v,mo,fmo); } \
SIM_API T __tsan_atomic##N##_compare_exchange_val(volatile T* a,T c,T v,int mo,int fmo) { __tsan_atomic##N##_compare_exchange_strong(a,&c,v,mo,fmo); return c; }
#define OP(N,T,name,expr) SIM_API T __tsan_atomic##N##_fetch_##name(volatile T* a,T v,int mo) { if(!G.active) { T o=__atomic_load_n(a,__ATOMIC_SEQ_CST); *a=(T)(expr); return o; } at_pre((void*)a,sizeof(T),true,PC); T o=*a; at_load((void*)a,mo); *a=(T)(expr); at_store((void*)a,mo,true); return o; }
#define ALL(N,T) AT(N,T) OP(N,T,add,o+v) OP(N,T,sub,o-v) OP(N,T,and,o&v) OP(N,T,or,o|v) OP(N,T,xor,o^v) OP(N,T,nand,~(o&v))
ALL(8,uint8_t) ALL(16,uint16_t) ALL(32,uint32_t) ALL(64,uint64_t)
SIM_API void __tsan_atomic_thread_fence(int mo) { if(!G.active) return; sync_point(); Rt g; Thread* t=G.cur;
  if(acq(mo) && t->has_acq) { vmax(t->vc,t->acqf); t->has_acq=false; }
  if(rel(mo)) { memcpy(t->relf,t->vc,sizeof t->vc); t->has_rel=true; t->vc[t->id]++; } }
SIM_API void __tsan_atomic_signal_fence(int) {}
// explicit bulk operations of instrumented code (linked with --wrap)
SIM_API void* __wrap_memcpy(void* d,const void* s,size_t n) { if(n) { access(s,n,false,PC); access(d,n,true,PC); } return memcpy(d,s,n); }
SIM_API void* __wrap_memmove(void* d,const void* s,size_t n) { if(n) { access(s,n,false,PC); access(d,n,true,PC); } return memmove(d,s,n); }
SIM_API void* __wrap_memset(void* d,int c,size_t n) { if(n) access(d,n,true,PC); return memset(d,c,n); }
}
