// P01-P05: the worker pool (include/nuSQuIDS/ThreadPool.h), driven through its public interface only.
#include <nuSQuIDS/ThreadPool.h>
#include <string>
#include <sstream>
#include "../sim/sim.h"
using namespace sim;

namespace {
enum { N_SUB=1, N_ACC, N_REJ, N_START, N_END, N_DTOR, N_GONE, N_GOT };
enum Kind { K_VALUE, K_THROW, K_VOID, K_NESTED, K_ARGS, K_SLOW, K_WAIT, K_BARRIER, K_NKIND };
int MODE; // property number
bool NOFAULT;

struct Task { int kind; int arg; int parent; bool accepted, rejected; std::string data; std::string* slot; };
const int MAXTASK=40;
struct World {
  ThreadPool* pool; int workers; int n; // tasks allocated so far
  Task t[MAXTASK]; std::future<int> fut[MAXTASK]; std::future<void> vfut[MAXTASK];
  std::shared_future<int> sf[MAXTASK]; bool has[MAXTASK]; bool hasv[MAXTASK]; bool hass[MAXTASK];
};
World* W;
bool barrier_ready(void* p) { int need=*(int*)p; int k=0; for(size_t i=0;i<notes();i++) { Note n=note_at(i); if(n.kind==N_START && n.b==K_BARRIER) k++; } return k>=need; }
int result_of(int id,int arg) { return id*1000+arg*7+3; }
std::string what_of(int id) { std::ostringstream s; s << "task " << id << " failed"; return s.str(); }
void submit(int id,int kind,int arg);

int body(int id,int arg,int kind,int nested) {
  note(N_START,id,kind);
  { Task& t=W->t[id];
    if(MODE==4) { // data written before submission is visible; data written here becomes visible to the receiver
      int sum=0; for(size_t i=0;i<t.data.size();i++) sum+=t.data[i]; if(sum!=(int)t.data.size()*('a'+id%20)) fail("stale-data","task %d does not see what was written before its submission",id);
      *t.slot="done "; *t.slot+=(char)('a'+id%26); } }
  struct End { int id; ~End() { note(N_END,id); } } e={id};
  switch(kind) {
    case K_THROW: throw std::runtime_error(what_of(id));
    case K_NESTED: submit(nested,K_VALUE,arg+1); break;
    case K_SLOW: for(int i=0;i<8;i++) yield(); break;
    case K_BARRIER: { block_until(barrier_ready,&W->workers,"all workers busy"); break; }
    default: break;
  }
  return result_of(id,arg);
}
struct Functor { int id; int kind; int nested; int operator()(int arg) const { return body(id,arg,kind,nested); } };
struct VFunctor { int id; void operator()(int arg) const { body(id,arg,K_VOID,-1); } };
int with_args(int id,std::string s,std::vector<int> v,int& ref) { 
  int ok = s.size()==5u+(unsigned)id && v.size()==(size_t)id+1; for(size_t i=0;i<v.size();i++) ok=ok && v[i]==id*10+(int)i; if(!ok) fail("wrong-argument","task %d received arguments different from those submitted",id);
  int r=body(id,ref,K_ARGS,-1); return r; }
int waits_for(int id,int arg,std::shared_future<int> f) { note(N_START,id,K_WAIT); struct End { int id; ~End() { note(N_END,id); } } e={id};
  try { f.get(); } catch(std::runtime_error&) {} return result_of(id,arg); }

void submit(int id,int kind,int arg) {
  Task& t=W->t[id]; t.kind=kind; t.arg=arg;
  if(MODE==4) { t.data.assign(6+(size_t)id%5,(char)('a'+id%20)); }
  note(N_SUB,id,kind);
  try {
    FaultsOn fo; if(MODE!=5||NOFAULT) faults_on(false);
    switch(kind) {
      case K_VOID: { VFunctor f={id}; std::future<void> r=W->pool->enqueue(f,arg); faults_on(false); W->vfut[id]=std::move(r); W->hasv[id]=true; break; }
      case K_ARGS: { std::string s; std::vector<int> v; { FaultsOff off; s.assign(5u+(size_t)id,'x'); for(int i=0;i<=id;i++) v.push_back(id*10+i); }
        std::future<int> r=W->pool->enqueue(with_args,id,std::move(s),v,std::ref(t.arg)); faults_on(false); W->fut[id]=std::move(r); W->has[id]=true; break; }
      case K_WAIT: { int o=-1; for(int j=0;j<id;j++) if(W->hass[j]) o=j; 
        if(o<0) { Functor f={id,K_VALUE,-1}; std::future<int> r=W->pool->enqueue(f,arg); faults_on(false); W->sf[id]=r.share(); W->hass[id]=true; t.kind=K_VALUE; break; }
        std::future<int> r=W->pool->enqueue(waits_for,id,arg,W->sf[o]); faults_on(false); W->fut[id]=std::move(r); W->has[id]=true; break; }
      default: { Functor f={id,kind,t.parent}; std::future<int> r=W->pool->enqueue(f,arg); faults_on(false); W->fut[id]=std::move(r); W->has[id]=true; }
    }
    t.accepted=true; note(N_ACC,id);
  } catch(std::exception& e) {
    faults_on(false); t.rejected=true; note(N_REJ,id);
    bool oom=dynamic_cast<std::bad_alloc*>(&e)!=nullptr; if(oom) probe("submission ran out of memory"); else probe("submission refused during shutdown");
    if(!oom && MODE!=5) { bool dt=false; for(size_t i=0;i<notes();i++) dt|=note_at(i).kind==N_DTOR; if(!dt) fail("refused","submission of task %d was refused although the pool is not being destroyed: %s",id,e.what()); }
  }
}
void receive(int id) {
  Task& t=W->t[id]; std::string got="nothing"; int v=0; bool exc=false;
  try { if(W->has[id]) { W->has[id]=false; v=W->fut[id].get(); } else if(W->hass[id]) { W->hass[id]=false; v=W->sf[id].get(); } else if(W->hasv[id]) { W->hasv[id]=false; W->vfut[id].get(); v=result_of(id,t.arg); } else return; }
  catch(std::runtime_error& e) { exc=true; got=e.what(); }
  catch(std::exception& e) { fail("wrong-outcome","the future of task %d delivered %s",id,e.what()); }
  note(N_GOT,id,v);
  if(t.kind==K_THROW) { if(!exc || got!=what_of(id)) fail("wrong-outcome","task %d threw \"%s\" but its future delivered %s",id,what_of(id).c_str(),exc?got.c_str():"a value"); }
  else if(exc) fail("wrong-outcome","task %d returned normally but its future delivered the exception %s",id,got.c_str());
  else if(v!=result_of(id,t.arg)) fail("wrong-outcome","the future of task %d delivered %d instead of %d",id,v,result_of(id,t.arg));
  if(MODE==4 && t.accepted && t.kind!=K_WAIT) { if(t.slot->size()!=6) fail("stale-data","the result of task %d does not show what it wrote",id); (*t.slot)+="!"; }
}

void history(int workers,bool destroyed,int before) {
  int nst[MAXTASK],nen[MAXTASK],acc[MAXTASK],rej[MAXTASK]; uint64_t accs[MAXTASK]; int running=0; bool gone=false; bool dtor=false;
  for(int i=0;i<MAXTASK;i++) nst[i]=nen[i]=acc[i]=rej[i]=0, accs[i]=0;
  uint64_t order=0; uint64_t accorder[MAXTASK],suborder[MAXTASK]; for(int i=0;i<MAXTASK;i++) accorder[i]=suborder[i]=0;
  for(size_t k=0;k<notes();k++) { Note n=note_at(k); order++; int id=(int)n.a;
    switch(n.kind) {
      case N_SUB: suborder[id]=order; break;
      case N_ACC: acc[id]=1; accorder[id]=order; break;
      case N_REJ: rej[id]=1; break;
      case N_START:
        nst[id]++; running++;
        if(MODE==1 && nst[id]>1) fail("ran-twice","task %d was started %d times",id,nst[id]);
        if(MODE==2 && gone) fail("ran-after-destruction","task %d started after the pool's destructor returned",id);
        if(MODE==3) {
          if(running>workers) fail("too-concurrent","%d tasks in progress in a pool of %d workers",running,workers);
          int waiting=0; for(int j=0;j<MAXTASK;j++) if(j!=id && accorder[j] && accorder[j]<suborder[id] && !nst[j]) waiting++;
          if(waiting+running-1>workers-1) fail("not-fifo","task %d started before %d task(s) accepted earlier, with %d other(s) in progress and %d worker(s)",id,waiting,running-1,workers);
          if(running==workers && workers>1) probe("all workers busy at once");
        }
        break;
      case N_END: nen[id]++; running--; break;
      case N_DTOR: dtor=true; break;
      case N_GONE: gone=true;
        if(MODE==2) for(int j=0;j<MAXTASK;j++) if(acc[j] && nen[j]!=1) fail("not-drained","the pool's destructor returned although task %d had %s",j,nst[j]?"not finished":"never been started");
        break;
      default: break;
    } }
  (void)dtor;(void)before;
  if(destroyed && (MODE==1||MODE==5)) for(int j=0;j<MAXTASK;j++) {
    if(acc[j] && nst[j]!=1) fail("not-run","accepted task %d ran %d times",j,nst[j]);
    if(rej[j] && nst[j]) fail("ran-although-refused","task %d ran although its submission failed",j);
  }
}

void workload() {
  race_detection(MODE==4); faults_on(false);
  World w; W=&w; Mark blocks0=mark();
  w.n=0; for(int i=0;i<MAXTASK;i++) { w.t[i].accepted=w.t[i].rejected=false; w.t[i].parent=-1; w.t[i].slot=nullptr; w.has[i]=w.hasv[i]=w.hass[i]=false; }
  int workers=w.workers=(int)range(1,MODE==3?4:3); describe("pool of %d worker(s)\n",workers);
  unsigned alive0=threads_alive();
  w.pool=nullptr;
  { 
    bool failed=false;
    try { FaultsOn fo; if(MODE!=5) faults_on(false); w.pool=new ThreadPool((size_t)workers); }
    catch(std::exception& e) { faults_on(false); failed=true; if(!fired_total()) fail("creation-failed","creating a pool of %d workers failed without cause: %s",workers,e.what()); describe("creation failed: %s\n",e.what()); }
    if(failed) {
      probe("pool creation failed"); nontrivial();
      if(threads_alive()!=alive0) fail("threads-left","%u worker(s) still exist after creation of the pool failed",threads_alive()-alive0);
      if(leaked(blocks0)) { dump_live("ctor"); fail("leak","%zu block(s) of memory still allocated after creation of the pool failed",(size_t)leaked(blocks0)); }
      { FaultsOff off; ThreadPool p2(2); if(p2.enqueue([]{return 5;}).get()!=5) fail("wrong-outcome","a new pool does not work after a failed creation"); }
      return; }
    faults_on(false);
  }
  if(MODE==5 && fired(F_THREAD)) fail("failure-swallowed","a thread could not be created but the constructor returned normally");
  int nsub=(int)choose(3); // extra submitting threads
  int ntask=(int)range(1,MODE==3?10:8); int nest_id=20;
  bool barrier= MODE<=3 && choose(MODE==3?2:4)==1; if(barrier && ntask<workers) ntask=workers;
  struct Plan { int kind,arg,who; } plan[MAXTASK];
  for(int i=0;i<ntask;i++) { static const int kinds[]={K_VALUE,K_THROW,K_VOID,K_NESTED,K_ARGS,K_SLOW,K_WAIT}; plan[i].kind=kinds[choose(7)]; plan[i].arg=(int)choose(20); plan[i].who=(int)choose((uint32_t)nsub+1);
    if(plan[i].kind==K_WAIT) plan[i].who=0; // uses the shared futures of the main thread
    if(barrier && i<workers) plan[i].kind=K_BARRIER;
    if(plan[i].kind==K_NESTED) w.t[i].parent=nest_id++;
    if(MODE==4) { w.t[i].slot=new std::string(); }
    static const char* kn[]={"value","throws","void","submits another","arguments","slow","waits for earlier task","meets all workers"}; describe("task %d: %s, submitted by thread %d\n",i,kn[plan[i].kind],plan[i].who); }
  if(MODE==4) for(int i=20;i<nest_id;i++) w.t[i].slot=new std::string();
  int when=(int)choose(4); // 0 destroy at once, 1 receive all first, 2 receive some first, 3 destroy, futures dropped
  describe("destroy: %s\n",when==0?"immediately":when==1?"after all results":when==2?"after some results":"immediately, results dropped");
  std::vector<std::thread> subs;
  for(int s=1;s<=nsub;s++) subs.emplace_back([&,s]{ for(int i=0;i<ntask;i++) if(plan[i].who==s) submit(i,plan[i].kind,plan[i].arg); });
  for(int i=0;i<ntask;i++) if(plan[i].who==0) submit(i,plan[i].kind,plan[i].arg);
  for(auto& s: subs) s.join();
  if(MODE==5 && fired(F_ALLOC)) { NOFAULT=true; submit(19,K_VALUE,1); if(!w.t[19].accepted) fail("pool-unusable","the pool refuses tasks after an earlier submission ran out of memory"); receive(19); }
  if(when==1||when==2) for(int i=0;i<ntask;i++) if(when==1 || choose(2)) receive(i);
  note(N_DTOR); delete w.pool; note(N_GONE);
  if(threads_alive()!=alive0 && (MODE==2||MODE==5)) fail("threads-left","%u worker(s) still exist after the pool was destroyed",threads_alive()-alive0);
  history(workers,true,0);
  if(when!=3) for(int i=0;i<MAXTASK;i++) { if(MODE==1||MODE==4) receive(i); }
  if(MODE==4) for(int i=0;i<MAXTASK;i++) if(w.t[i].slot) { if(w.t[i].accepted && w.t[i].kind!=K_WAIT && w.t[i].slot->empty()) fail("stale-data","the effects of task %d are not visible after the pool was destroyed",i); delete w.t[i].slot; }
  if(MODE==2) { for(int i=0;i<3;i++) yield(); history(workers,true,0); }
  nontrivial();
}
void p1() { MODE=1; workload(); } void p2() { MODE=2; workload(); } void p3() { MODE=3; workload(); } void p4() { MODE=4; workload(); } 
void p5() { MODE=5; Mark m=mark(); { workload(); } size_t b=(size_t)leaked(m); if(b) { dump_live("end"); fail("leak","%zu block(s) of memory still allocated after the pool and all results are gone",b); } }
}
int main(int argc,char** argv) {
  unsigned sp=bit(F_SPURIOUS);
  static const Scenario s[]={
    {"P01","pool",p1,1,sp,true,400000},{"P02","pool",p2,1,sp,true,400000},{"P03","pool",p3,1,sp,true,400000},{"P04","pool",p4,1,sp,true,400000},
    {"P05","pool",p5,1,sp|bit(F_ALLOC)|bit(F_THREAD),true,400000},
  };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
