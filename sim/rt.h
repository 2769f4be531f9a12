// Internal state of the simulator runtime. One translation unit (libsim.cpp) includes everything.
#pragma once
#include "sim.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <exception>
#include <stdexcept>
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <poll.h>
#include <sys/file.h>
#include <unistd.h>
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define HIDDEN __attribute__((visibility("hidden")))

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); extern char __libc_single_threaded; }

namespace rt {
using namespace sim;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

// ---- raw system calls (the C library's wrapper is interposed) ----
static inline long rawcall(long n, long a=0, long b=0, long c=0, long d=0, long e=0, long f=0) {
  long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
  asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}
static inline long rawerr(long r) { if(r<0 && r>-4096) { errno=(int)-r; return -1; } return r; }

// ---- random numbers ----
static inline u64 mix(u64 z) { z+=0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
struct Rng { u64 s=1; u64 next() { s+=0x9e3779b97f4a7c15ull; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
  u32 below(u32 n) { return n<=1?0:(u32)(((next()>>32)*(u64)n)>>32); }
  double unit() { return (next()>>11)*(1.0/9007199254740992.0); } };

// ---- containers that never touch the simulated heap ----
template<class T> struct Vec { T* p=nullptr; size_t n=0, cap=0;
  void push(const T& v) { if(n==cap) { cap=cap?cap*2:64; p=(T*)__libc_realloc((void*)p,cap*sizeof(T)); } p[n++]=v; }
  T& operator[](size_t i) { return p[i]; } const T& operator[](size_t i) const { return p[i]; }
  void clear() { n=0; } void resize(size_t m) { while(cap<m) { cap=cap?cap*2:64; p=(T*)__libc_realloc((void*)p,cap*sizeof(T)); } n=m; }
  void set(const Vec& o) { resize(o.n); if(o.n) memcpy((void*)p,(const void*)o.p,o.n*sizeof(T)); } void set(const T* q,size_t m) { resize(m); if(m) memcpy((void*)p,(const void*)q,m*sizeof(T)); }
  void pop() { n--; } };
template<class V> struct Map { // open addressing, key = nonzero u64
  struct E { u64 k; V v; }; E* t=nullptr; size_t cap=0, n=0;
  static size_t h(u64 k) { return (size_t)mix(k); }
  V* find(u64 k) { if(!cap) return nullptr; for(size_t i=h(k)&(cap-1);t[i].k;i=(i+1)&(cap-1)) if(t[i].k==k) return &t[i].v; return nullptr; }
  V& get(u64 k) { if(n*2>=cap) grow(); size_t i=h(k)&(cap-1); for(;t[i].k;i=(i+1)&(cap-1)) if(t[i].k==k) return t[i].v;
    t[i].k=k; memset((void*)&t[i].v,0,sizeof(V)); n++; return t[i].v; }
  void grow() { size_t oc=cap; E* o=t; cap=cap?cap*2:256; t=(E*)__libc_calloc(cap,sizeof(E)); n=0;
    for(size_t i=0;i<oc;i++) if(o[i].k) { size_t j=h(o[i].k)&(cap-1); while(t[j].k) j=(j+1)&(cap-1); t[j]=o[i]; n++; } __libc_free(o); } };

// ---- record shared between supervisor and run ----
struct SEnt { u32 tid; u32 val; u64 lstep; };
struct FEnt { u32 cls, idx, param; };
enum { WCAP=1<<18, SCAP=1<<20, FCAP=64, NPROBE=96, NKNOWN=24 };
enum Outcome { O_NONE=0, O_OK=1, O_FAIL=2 };
// one place in the program where a fault can be injected: how often it was passed, and some of the occurrences
enum { ICAP=3000, IHASH=8192 };
struct Ident { u64 id; u32 cls, count, first, last, pick; };
struct Shared {
  int outcome; char cls[64]; char msg[3000]; char desc[6000]; u32 desclen;
  u64 hash, shash; u64 sites[F_NCLASS], fired[F_NCLASS];
  u64 steps, switches, simtime, allocs, diskops, threads, benign; int nontriv; int overflow;
  u64 eff[F_NCLASS];
  u32 nprobe; char probe[NPROBE][48]; u64 probec[NPROBE];
  u32 nknown; char known[NKNOWN][48]; char knownmsg[NKNOWN][400];
  u32 nI, ihash[IHASH]; Ident ident[ICAP];
  u32 nW, nS; u32 W[WCAP]; SEnt S[SCAP];
};

enum { MAXT=96, CLKT=96 };
enum { T_UNUSED, T_RUN, T_BLOCK, T_EXIT, T_JOINED };
enum { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_ONCE, W_PRED, W_RW, W_SEM };
struct Thread {
  int id; int state; int baton; int rt; int quiet; bool fon;
  u32 vc[CLKT], relf[CLKT], acqf[CLKT]; bool has_rel, has_acq;
  u64 lbase; size_t sidx;
  int wkind; const void* wobj; u64 deadline; bool woken; u64 wseq; bool (*pred)(void*); void* parg;
  int prio; bool yielded;
  pthread_t real; void* (*fn)(void*); void* arg; bool detached, joined; char* stk; size_t stksz;
  u32 nexc;
};
struct Sync { u32* vc; int owner1; int depth; int readers; }; // owner1 = tid+1

struct Plan { // everything that decides a run
  u64 seed; bool replay; Vec<u32> W; Vec<SEnt> S; Vec<FEnt> F;
};

struct Glob {
  bool on, started; volatile int active; // active: instrumented accesses are steps now
  Thread* cur; int nthreads, nlive, nunjoined;
  u64 steps, next_ev, in_step, limit, fair_after; u64 wseq; u64 now;
  Rng wr, sr, ar, dr; // workload, schedule, address placement, misc
  bool race_on; bool armed; bool fon_child; bool trace;
  int policy; double pgap; double psync; int victim; u64 victim_until; u64 prof_steps; u32 pct_left; int minprio; bool guide;
  Plan* plan; Shared* sh; bool faultpass;
  u64 gcount[F_NCLASS];
  int fillpat;
  const Scenario* sc; bool rescan;
};
extern HIDDEN Glob G; extern HIDDEN Thread TH[MAXT];

struct Rt { Thread* t; int e; Rt() { e=errno; t=G.cur; t->rt++; G.active=0; }
  ~Rt() { t->rt--; G.active = G.on && !t->rt && !t->quiet; errno=e; } };

static inline void hashin(u64 v) { G.sh->hash=mix(G.sh->hash^v); }
static inline u64 lstep() { return G.cur->lbase+(G.steps-G.in_step); }

void step_slow(); void sync_point(); void reschedule(bool forced); [[noreturn]] void failv(const char* cls,const char* fmt,va_list ap);
[[noreturn]] void die(const char* cls,const char* fmt,...) __attribute__((format(printf,2,3)));
static inline void step() { if(unlikely(++G.steps>=G.next_ev)) step_slow(); }
bool fsite(FaultClass c,u32* param);
void note_eff(FaultClass c);
u32 wchoose(u32 n);
Sync* sync_of(const void* a,bool create);
void vc_acquire(const void* a); void vc_release(const void* a); void vc_release_store(const void* a);
void access_check(const void* a,size_t n,bool w,const void* pc);   // heap state
void race_access(const void* a,size_t n,bool w,bool atomic,const void* pc);
void race_clear(const void* a,size_t n);
bool in_arena(const void* p); 
bool rt_main_thread();
} // namespace rt
