// Simulated heap: operator new/delete (always, inside a run) and malloc family (while armed).
namespace rt {
static const u64 ABASE=0x100000000000ull, ASIZE=4ull<<30, SBASE=0x0f0000000000ull;
struct Hdr { u64 size, full; u32 magic; u8 kind, live; uint16_t pad; u32 seq; const void* pc; Hdr* next; };
enum { K_NEW=1, K_NEWARR, K_MALLOC, K_ALIGNED };
static const char* kindname[]={"?","operator new","operator new[]","malloc","aligned operator new"};
static const u32 MAGIC=0xA110CA7Eu;
struct MemState { u64 bump; u64 nlive[5], blive; u64 count; u32 seq; u64 quar; Hdr *qh,*qt; Map<Hdr*> cls; Hdr* all; u64 mallocs; bool inited; } M;
static inline u8* shadow(u64 a) { return (u8*)(SBASE+((a-ABASE)>>3)); }
HIDDEN bool in_arena(const void* p) { u64 a=(u64)p; return a-ABASE<ASIZE; }
static void mem_init() { // in the supervisor, once
  void* p=mmap((void*)ABASE,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  void* q=mmap((void*)SBASE,ASIZE/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(p!=(void*)ABASE || q!=(void*)SBASE) { fprintf(stderr,"sim: cannot map the arena\n"); _exit(3); }
  M.bump=ABASE+4096; M.inited=true;
}
static void shadow_set(u64 a,u64 n,bool ok) { // a 8-aligned; whole block region
  u8* s=shadow(a); u64 g=n>>3; if(ok) { memset(s,1,g); if(n&7) s[g]=(u8)(1+(n&7)); } else memset(s,9,(n+7)>>3); }
static void fill_fresh(void* p,u64 n) {
  switch(G.fillpat) { case 0: memset(p,0,n); break; case 1: memset(p,0xff,n); break;
    case 2: { Rng r; r.s=G.ar.next(); u64* q=(u64*)p; u64 i=0; for(;i+8<=n;i+=8) *q++=r.next(); u64 t=r.next(); memcpy(q,&t,n-i); break; }
    default: { Rng r; r.s=G.ar.next(); double* q=(double*)p; u64 i=0; for(;i+8<=n;i+=8) *q++=r.unit()*8-2; double t=1.5; memcpy(q,&t,n-i); } } }
static void* arena_alloc(size_t n,int kind,size_t align,const void* pc) {
  if(n>(1ull<<30)) return nullptr;
  u64 gap=16*(G.ar.next()&3); u64 rounded=((n+15)&~15ull); u64 full=rounded+64+32+ (align>16?align:0);
  Hdr* h=nullptr; u64 user;
  if(align<=16) if(Hdr** l=M.cls.find(full)) if(*l) { h=*l; *l=h->next; user=(u64)h+sizeof(Hdr)+16; }
  if(!h) {
    u64 a=M.bump+gap; user=a+sizeof(Hdr)+16; if(align>16) user=(user+align-1)&~(u64)(align-1);
    h=(Hdr*)(user-sizeof(Hdr)-16); M.bump=(user+rounded+16+15)&~15ull;
    if(M.bump>ABASE+ASIZE) die("harness-arena","simulated heap exhausted");
  }
  h->size=n; h->full=full; h->magic=MAGIC; h->kind=(u8)kind; h->live=1; h->seq=++M.seq; h->pc=pc; h->next=nullptr;
  memset((void*)(user-16),0xFA,16); memset((void*)(user+n),0xFA,rounded-n+16);
  fill_fresh((void*)user,n); shadow_set(user,n,true); if(!n) *shadow(user)=0;
  M.nlive[kind]++; M.blive+=n; M.count++; if(G.sh) G.sh->allocs++;
  return (void*)user;
}
static Hdr* hdr_of(const void* p) { Hdr* h=(Hdr*)((u64)p-sizeof(Hdr)-16); if(((u64)p&15) || (u64)p<ABASE+4096+sizeof(Hdr) || h->magic!=MAGIC) return nullptr; return h; }
static void zones(Hdr* h,const char* when) { u8* u=(u8*)h+sizeof(Hdr)+16; u64 tail=((h->size+15)&~15ull)-h->size+16;
  for(int i=0;i<16;i++) if(u[i-16]!=0xFA) die("heap-overflow","bytes before a block of %llu bytes were overwritten (%s), allocated at pc=%p",(unsigned long long)h->size,when,h->pc);
  for(u64 i=0;i<tail;i++) if(u[h->size+i]!=0xFA) die("heap-overflow","bytes after a block of %llu bytes were overwritten (%s), allocated at pc=%p",(unsigned long long)h->size,when,h->pc); }
static void arena_free(void* p,int kind,size_t size,bool sized,const void* pc) {
  Hdr* h=hdr_of(p);
  if(!h) die("bad-free","release of %p which is not the start of a block (pc=%p)",p,pc);
  if(!h->live) die("double-free","block of %llu bytes released twice (allocated at pc=%p, second release at pc=%p)",(unsigned long long)h->size,h->pc,pc);
  if(h->kind!=kind) die("mismatched-free","block from %s released with the counterpart of %s (pc=%p, %p)",kindname[h->kind],kindname[kind],h->pc,pc);
  if(sized && h->size!=size) die("mismatched-free","block of %llu bytes released as %llu bytes (pc=%p, %p)",(unsigned long long)h->size,(unsigned long long)size,h->pc,pc);
  zones(h,"found at release"); 
  if(G.active) { race_access(p,h->size>4096?4096:h->size,true,false,pc); }
  h->live=0; M.nlive[h->kind]--; M.blive-=h->size;
  u64 n=(h->size+7)&~7ull; memset(shadow((u64)p),9,n>>3); 
  if(h->size>=(1u<<17)) { u64 lo=((u64)p+4095)&~4095ull, hi=((u64)p+h->size)&~4095ull; if(hi>lo) madvise((void*)lo,hi-lo,MADV_DONTNEED); }
  else memset(p,0xDD,h->size);
  if(h->full>(1u<<20) || h->kind==K_ALIGNED) return;
  h->next=nullptr; if(M.qt) M.qt->next=h; else M.qh=h; M.qt=h; M.quar+=h->full;
  while(M.quar>(24u<<20) && M.qh) { Hdr* o=M.qh; M.qh=o->next; if(!M.qh) M.qt=nullptr; M.quar-=o->full; race_clear((char*)o+sizeof(Hdr)+16,o->size);
    Hdr*& l=M.cls.get(o->full); o->next=l; l=o; }
}
HIDDEN void access_check(const void* a,size_t n,bool w,const void* pc) {
  u64 x=(u64)a; 
  while(n) { u64 off=x&7; u64 k=8-off; if(k>n) k=n; u8 s=*shadow(x);
    if(unlikely(s!=1)) { bool bad = s==0||s==9|| off+k>(u64)(s-1);
      if(bad) { const char* c= s==9?"use-after-free":"heap-out-of-bounds";
        die(c,"%s of %zu byte(s) at %p, pc=%p",w?"write":"read",n,a,pc); } }
    x+=k; n-=k; }
}
static bool mem_on() { return G.on && !G.cur->rt; }
static bool allocfault(FaultClass c) { return G.cur->fon && !G.cur->quiet && fsite(c,nullptr); }
static void* new_impl(size_t n,int kind,size_t align,const void* pc,bool nothrow) {
  if(!mem_on()) { void* p=align>16?__libc_memalign(align,n):__libc_malloc(n?n:1); if(!p) { if(nothrow) return nullptr; throw std::bad_alloc(); } return p; }
  void* p; { Rt g; if(!nothrow && allocfault(F_ALLOC)) p=nullptr; else p=arena_alloc(n,kind,align,pc); }
  if(!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void del_impl(void* p,int kind,size_t n,bool sized,const void* pc) {
  if(!p) return; if(!in_arena(p)) { __libc_free(p); return; }
  int e=errno; bool a=G.active; Thread* t=G.cur; t->rt++; arena_free(p,kind,n,sized,pc); t->rt--; (void)a; errno=e;
}
struct RecFree {};
} // namespace rt
using namespace rt;
#define PC __builtin_return_address(0)
SIM_API void* operator new(size_t n) { return new_impl(n,K_NEW,0,PC,false); }
SIM_API void* operator new[](size_t n) { return new_impl(n,K_NEWARR,0,PC,false); }
SIM_API void* operator new(size_t n,const std::nothrow_t&) noexcept { return new_impl(n,K_NEW,0,PC,true); }
SIM_API void* operator new[](size_t n,const std::nothrow_t&) noexcept { return new_impl(n,K_NEWARR,0,PC,true); }
SIM_API void* operator new(size_t n,std::align_val_t a) { return new_impl(n,K_ALIGNED,(size_t)a,PC,false); }
SIM_API void* operator new[](size_t n,std::align_val_t a) { return new_impl(n,K_ALIGNED,(size_t)a,PC,false); }
SIM_API void* operator new(size_t n,std::align_val_t a,const std::nothrow_t&) noexcept { return new_impl(n,K_ALIGNED,(size_t)a,PC,true); }
SIM_API void* operator new[](size_t n,std::align_val_t a,const std::nothrow_t&) noexcept { return new_impl(n,K_ALIGNED,(size_t)a,PC,true); }
SIM_API void operator delete(void* p) noexcept { del_impl(p,K_NEW,0,false,PC); }
SIM_API void operator delete[](void* p) noexcept { del_impl(p,K_NEWARR,0,false,PC); }
SIM_API void operator delete(void* p,size_t n) noexcept { del_impl(p,K_NEW,n,true,PC); }
SIM_API void operator delete[](void* p,size_t n) noexcept { del_impl(p,K_NEWARR,n,true,PC); }
SIM_API void operator delete(void* p,const std::nothrow_t&) noexcept { del_impl(p,K_NEW,0,false,PC); }
SIM_API void operator delete[](void* p,const std::nothrow_t&) noexcept { del_impl(p,K_NEWARR,0,false,PC); }
SIM_API void operator delete(void* p,std::align_val_t) noexcept { del_impl(p,K_ALIGNED,0,false,PC); }
SIM_API void operator delete[](void* p,std::align_val_t) noexcept { del_impl(p,K_ALIGNED,0,false,PC); }
SIM_API void operator delete(void* p,size_t,std::align_val_t) noexcept { del_impl(p,K_ALIGNED,0,false,PC); }
SIM_API void operator delete[](void* p,size_t,std::align_val_t) noexcept { del_impl(p,K_ALIGNED,0,false,PC); }

namespace rt {
static inline bool malloc_on() { return unlikely(G.armed) && mem_on(); }
static void* marmed(size_t n,size_t align,const void* pc) { Rt g; if(allocfault(F_MALLOC)) { g.e=ENOMEM; return nullptr; } void* p=arena_alloc(n,K_MALLOC,align,pc); if(!p) g.e=ENOMEM; return p; }
}
extern "C" {
SIM_API void* malloc(size_t n) { if(!malloc_on()) return __libc_malloc(n); return marmed(n,0,PC); }
SIM_API void free(void* p) { if(!p) return; if(!in_arena(p)) { __libc_free(p); return; } int e=errno; Thread* t=G.cur; t->rt++; arena_free(p,K_MALLOC,0,false,PC); t->rt--; errno=e; }
SIM_API void* calloc(size_t a,size_t b) { if(!malloc_on()) return __libc_calloc(a,b); size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; void* p=marmed(n,0,PC); if(p) memset(p,0,n); return p; }
SIM_API void* realloc(void* p,size_t n) {
  if(p && in_arena(p)) { Hdr* h=hdr_of(p); if(!h||!h->live) { Rt g; die("bad-free","realloc of a block that is not live"); }
    void* q; if(malloc_on()) q=marmed(n,0,PC); else { Rt g; q=arena_alloc(n,K_MALLOC,0,PC); }
    if(!q) return nullptr; memcpy(q,p,n<h->size?n:h->size); free(p); return q; }
  if(malloc_on() && !p) return marmed(n,0,PC);
  return __libc_realloc(p,n); }
SIM_API void* memalign(size_t a,size_t n) { if(!malloc_on()) return __libc_memalign(a,n); return marmed(n,a,PC); }
SIM_API void* aligned_alloc(size_t a,size_t n) { if(!malloc_on()) return __libc_memalign(a,n); return marmed(n,a,PC); }
// the C library ends the process when it cannot register a thread-local destructor: not a failure to inject
SIM_API int __cxa_thread_atexit_impl(void (*f)(void*),void* o,void* d) { static int (*real)(void(*)(void*),void*,void*); if(!real) real=(int(*)(void(*)(void*),void*,void*))dlsym(RTLD_NEXT,"__cxa_thread_atexit_impl");
  if(!mem_on()) return real(f,o,d); Rt g; return real(f,o,d); }
SIM_API int posix_memalign(void** o,size_t a,size_t n) { void* p; if(!malloc_on()) p=__libc_memalign(a,n); else p=marmed(n,a,PC); if(!p) return ENOMEM; *o=p; return 0; }
}
namespace sim {
size_t live_blocks() { return M.nlive[1]+M.nlive[2]+M.nlive[4]; }
size_t live_bytes() { return M.blive; }
Mark mark() { return Mark{M.nlive[1]+M.nlive[2]+M.nlive[4],M.nlive[3],M.seq}; }
size_t live_mallocs() { return M.nlive[3]; }
uint64_t alloc_count() { return M.count; }
void malloc_arm(bool on) { G.armed=on; }
void heap_fill(int p) { G.fillpat=p; }
static Hdr* next_live(Hdr* from) { return from; }
bool addr_live(const void* p,size_t n) { u64 x=(u64)p; if(!in_arena(p)||!in_arena((char*)p+n)) return false;
  while(n) { u64 off=x&7,k=8-off; if(k>n) k=n; u8 s=*shadow(x); if(s!=1 && (s==0||s==9||off+k>(u64)(s-1))) return false; x+=k; n-=k; } return true; }
size_t block_size(const void* p) { if(!in_arena(p)) return 0; Hdr* h=hdr_of(p); return h&&h->live?h->size:0; }
// walk all blocks: headers are found through their magic, on 16-byte steps of the bump region
template<class Fn> static void walk(Fn f) { for(u64 a=ABASE+4096;a+sizeof(Hdr)<=M.bump;a+=16) { Hdr* h=(Hdr*)a; if(h->magic==MAGIC && h->size<=(1ull<<30) && h->kind>=1 && h->kind<=4) { if(h->live) f(h); a=(a+sizeof(Hdr)+16+((h->size+15)&~15ull)+16)-16; } } }
void check_heap() { Rt g; walk([](Hdr* h){ zones(h,"found by a heap check"); }); (void)next_live; }
void dump_live(const char* tag) { Rt g; if(!G.trace) return; int k=0; walk([&](Hdr* h){ if(k++<40) fprintf(stderr,"  [%s] live block #%u of %llu bytes (%s) pc=%p\n",tag,h->seq,(unsigned long long)h->size,kindname[h->kind],h->pc); }); }
// Blocks which the program can still reach from static or thread-local storage are kept, not lost.
struct Scan { Map<Hdr*>* blk; Vec<Hdr*> work; Map<u32> seen; };
static void scan_range(Scan& c,const void* b,size_t n) { const u64* q=(const u64*)(((u64)b+7)&~7ull); const u64* e=(const u64*)(((u64)b+n)&~7ull);
  for(;q<e;q++) { u64 v=*q; if(v-ABASE>=ASIZE || v>=M.bump) continue; Hdr** h=c.blk->find(v); if(!h) for(u64 a=v&~15ull, k=0;k<8 && a>ABASE+4096;k++,a-=16) if((h=c.blk->find(a))) break; 
    if(!h||!*h) continue; u32& s=c.seen.get((u64)*h); if(s) continue; s=1; c.work.push(*h); } }
static int scan_mod(struct dl_phdr_info* i,size_t,void* d) { Scan& c=*(Scan*)d; bool own=false; 
  for(int k=0;k<i->dlpi_phnum;k++) { const auto& p=i->dlpi_phdr[k]; u64 a=i->dlpi_addr+p.p_vaddr; if(p.p_type==PT_LOAD && (u64)&G>=a && (u64)&G<a+p.p_memsz) own=true; }
  if(own) return 0;
  for(int k=0;k<i->dlpi_phnum;k++) { const auto& p=i->dlpi_phdr[k];
    if(p.p_type==PT_LOAD && (p.p_flags&PF_W)) { u64 a=i->dlpi_addr+p.p_vaddr, e=a+p.p_memsz; scan_range(c,(void*)a,e-a); }
    if(p.p_type==PT_TLS && i->dlpi_tls_data) { scan_range(c,i->dlpi_tls_data,p.p_memsz); long off=(char*)i->dlpi_tls_data-(char*)pthread_self(); 
      if(off<0 && off>-(1<<20)) for(int t=0;t<G.nthreads;t++) if(TH[t].state!=T_UNUSED && TH[t].state!=T_EXIT && TH[t].state!=T_JOINED && TH[t].real && !pthread_equal(TH[t].real,pthread_self())) scan_range(c,(char*)TH[t].real+off,p.p_memsz); } }
  return 0; }
static void lost(const Mark& m,long* nb,long* nc) { Rt g; long eb=(long)(M.nlive[1]+M.nlive[2]+M.nlive[4])-(long)m.blocks, ec=(long)M.nlive[3]-(long)m.mallocs; *nb=eb>0?eb:0; *nc=ec>0?ec:0; if(eb<=0 && ec<=0) return;
  Map<Hdr*> blk; Scan c; c.blk=&blk; walk([&](Hdr* h){ blk.get((u64)h+sizeof(Hdr)+16)=h; });
  dl_iterate_phdr(scan_mod,&c); { long rb=0, rc=0; while(c.work.n) { Hdr* h=c.work[c.work.n-1]; c.work.pop(); if(h->seq>m.seq) (h->kind==K_MALLOC?rc:rb)++; scan_range(c,(u8*)h+sizeof(Hdr)+16,h->size); }
    if(G.trace && (rb||rc)) fprintf(stderr,"  [leak scan] %ld+%ld new blocks are kept by static or thread-local storage\n",rb,rc);
    eb-=rb; ec-=rc; } *nb=eb>0?eb:0; *nc=ec>0?ec:0; }
long leaked(const Mark& m) { long b,c; lost(m,&b,&c); return b; }
long leaked_c(const Mark& m) { long b,c; lost(m,&b,&c); return c; }
}
