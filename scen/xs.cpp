// X01, X02: cross-section tables (src/xsections.cpp): writing and reading them as HDF5 and text on a failing disk with a library
// that may refuse, and sharing them between threads.
#include <cassert>
#include <nuSQuIDS/xsections.h>
#include <cmath>
#include <cstring>
#include <iostream>
#include <memory>
#include <thread>
#include <vector>
#include "../sim/sim.h"
#include "h5seam.h"
#include "tabs.h"
using namespace sim;
using namespace tabs;
using namespace nusquids;
namespace {
void x1() {
  faults_on(false); race_detection(false); seam::begin(); std::clog.rdbuf(nullptr); disk_benign(choose(4)==3); Tab* tp=new Tab; Tab& t=*tp; gen(t,choose(3)==2?1:2); bool ref=choose(2); bool h5src=choose(2);
  describe("tables %d: %d energies, %d z, flavours %s, from %s\n",t.v,t.nE,t.nz,t.distinct==0?"common":t.distinct==1?"distinct":"partly equal",h5src?"HDF5":"text");
  if(choose(8)==7) { int fl=choose(t.distinct==0?1:t.distinct>1?2:3); if(h5src && t.distinct==3 && fl==1) fl=0; t.bad= t.v==1?(int)choose(4):(int)(choose(2)*12+fl*4+choose(4)); t.bad2=choose(2); describe("a table is incomplete: %d,%d\n",t.bad,t.bad2); probe("incomplete table"); }
  bool bn=choose(2); disk_benign(false); if(h5src) puth5(t,"/simfs/src.h5"); else puttext(t,"/simfs/src_"); disk_benign(bn&&choose(2));
  std::string src=h5src?"/simfs/src.h5":"/simfs/src_"; double tol=1e-9; static double q0[MAXQ],q1[MAXQ]; int n0=0,n1=0;
  // reading, with faults and again without
  Obj o; bool threw=false; const char* by="?"; int mk=seam::nobj, cf=seam::close_failures; uint64_t f0=fired_total(), io0=io();
  seam::refuse_on=ref; faults_on(true); try { load(o,t.v,src); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("reading failed: %.80s\n",e.what()); } seam::refuse_on=false;
  int lk=seam::still_open(mk,&by)-(seam::close_failures-cf); if(lk>0) fail("left-open","%d objects left open by reading (made by %s)",lk,by); if(seam::double_close) fail("closed-twice","an object was closed twice");
  if(t.bad>=0) { if(!threw) fail("incomplete-accepted","an incomplete table was loaded without failure"); delete tp; nontrivial(); return; }
  if(threw) { probe("reading failed"); if(fired_total()==f0) fail("spurious-failure","reading failed although nothing was wrong"); disk_heal(); Obj p; load(p,t.v,src); o=std::move(p); } else { (void)io0; }
  if(io()==io0 && disk_open_fds()) fail("left-open","a file is still open after reading");
  truth(t,o.x(),o.lo(),o.hi(),tol,"were read"); ask(t,o.x(),o.lo(),o.hi(),q0,n0); for(int i=0;i<n0;i++) if(!(q0[i]>=0) || std::isinf(q0[i])) fail("not-a-number","an interpolated cross section is %g",q0[i]);
  // writing, and reading what was written
  int gens=1+choose(2); bool h5=true; 
  for(int g=0;g<gens;g++) {
    h5=choose(2); std::string dst=std::string("/simfs/out")+char('0'+g)+(h5?".h5":"_"); int level=choose(3)==2?(int)(1+choose(9)):0; bool lim=choose(6)==5; if(choose(3)==2) { std::string old(choose(choose(2)?16000:1000),choose(2)?'7':'\n'); probe("written over older files"); if(h5) put(dst,old); else if(t.v==1) for(int c=0;c<2;c++) { put(dst+"sigma_"+CN[c]+".dat",old); put(dst+"dsde_"+CN[c]+".dat",old); } else for(int f=0;f<3;f++) for(int y=0;y<2;y++) for(int c=0;c<2;c++) for(int d=0;d<2;d++) put(p2(dst,f,y,c,d,false),old); }
    if(lim) disk_limit(choose(choose(2)?8000:60000)); bool fl=io()==0; uint64_t w0=fired_total(), wi=io(); threw=false; mk=seam::nobj; cf=seam::close_failures; seam::refuse_on=ref; faults_on(fl);
    try { if(t.v==1) { if(h5) o.b->WriteHDF(dst); else o.b->WriteText(dst); } else { if(h5) o.a->WriteHDF(dst,level); else o.a->WriteText(dst); } faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("writing failed: %.80s\n",e.what()); } seam::refuse_on=false;
    describe("written as %s%s: %s\n",h5?"HDF5":"text",lim?" to a small disk":"",threw?"failed":"done");
    if(io()==wi && !lim) { lk=seam::still_open(mk,&by)-(seam::close_failures-cf); if(lk>0) fail("left-open","%d objects left open by writing (made by %s)",lk,by); if(disk_open_fds()) fail("left-open","a file is still open after writing"); } if(seam::double_close) fail("closed-twice","an object was closed twice");
    if(threw) { probe("writing failed"); if(fired_total()==w0 && !lim) fail("spurious-failure","writing failed although nothing was wrong"); break; }
    disk_heal(); disk_limit(~0ull); Obj p; try { load(p,t.v,dst); } catch(std::exception& e) { fail("unreadable","what was written without failure cannot be read: %.200s",e.what()); }
    bool rounded=h5 && t.v==2; if(rounded) tol=2e-4; else tol=std::max(tol,1e-9); truth(t,p.x(),p.lo(),p.hi(),tol,"were read back"); ask(t,p.x(),p.lo(),p.hi(),q1,n1); double w=tol>1e-6?5e-3:1e-7; for(int i=0;i<n0;i++) if(!near(q0[i],q1[i],w)) fail("differs","cross section %d was %.17g and is %.17g after writing and reading",i,q0[i],q1[i]);
    o=std::move(p); probe(h5?"read back from HDF5":"read back from text"); if(g) probe("second generation");
  }
  delete tp; nontrivial(); check_heap();
}
// ---- sharing -----------------------------------------------------------------------------------------
struct Q { int what, f, y, c; double e, e2; double ref; };
struct W { Obj o; CrossSectionLibrary* lib; Tab t; std::vector<Q> q; };
double eval(const W& w,const Q& q) { try { switch(q.what) {
  case 0: return w.o.x().TotalCrossSection(q.e,FL[q.f],NT[q.y],CU[q.c]); case 1: return w.o.x().SingleDifferentialCrossSection(q.e,q.e2,FL[q.f],NT[q.y],CU[q.c]);
  case 2: return w.o.x().AverageSingleDifferentialCrossSection(q.e,q.e2,q.e2*1.25,FL[q.f],NT[q.y],CU[q.c]); case 3: return w.o.x().AverageTotalCrossSection(q.e*0.8,q.e,FL[q.f],NT[q.y],CU[q.c]);
  case 4: { auto p=w.lib->crossSectionForTarget(q.c?proton:nusquids::electron); return p->TotalCrossSection(q.e,FL[q.f],NT[q.y],q.c?CU[0]:X::GR)+w.lib->hasTarget(neutron); }
  default: { auto p=w.lib->crossSectionForTarget(nusquids::electron); return p->AverageSingleDifferentialCrossSection(q.e,q.e2*0.1,q.e2*0.2,X::electron,X::antineutrino,X::GR); } } } catch(std::runtime_error&) { return -4711; } }
void own(const W* w,const char* path,bool text) { Obj o; load(o,w->t.v,path); truth(w->t,o.x(),o.lo(),o.hi(),1e-9,"were read while others were used"); }
void work(const W* w,const std::vector<int>* s) { for(int i : *s) { const Q& q=w->q[i]; double v=eval(*w,q); if(!same(v,q.ref)) fail("different-answer","query %d of kind %d gave %.17g, alone %.17g",i,q.what,v,q.ref); } }
void x2() {
  faults_on(false); race_detection(true); seam::begin(); std::clog.rdbuf(nullptr); disk_benign(false); std::unique_ptr<W> wp(new W); W& w=*wp; gen(w.t,choose(3)==2?1:2); bool h5src=choose(2); if(h5src) puth5(w.t,"/simfs/src.h5"); else puttext(w.t,"/simfs/src_"); const char* path=h5src?"/simfs/src.h5":"/simfs/src_"; load(w.o,w.t.v,path);
  describe("tables %d: %d energies, %d z\n",w.t.v,w.t.nE,w.t.nz);
  CrossSectionLibrary lib; w.lib=&lib; lib.addTarget(nusquids::electron,GlashowResonanceCrossSection()); lib.addTarget(neutron,NullCrossSections()); if(w.t.v==2) lib.addTarget(proton,std::shared_ptr<X>(new D2(*w.o.a))); else lib.addTarget(proton,std::shared_ptr<X>(new D1(*w.o.b)));
  int nq=2+choose(12); for(int i=0;i<nq;i++) { Q q; q.what=choose(6); q.f=choose(3); q.y=choose(2); q.c=choose(2); double u=real(0.02,0.98); q.e=std::exp(std::log(w.t.E[0])+u*(std::log(w.t.E[w.t.nE-1])-std::log(w.t.E[0])))*GeV; if(choose(8)==7) q.e*=choose(2)?1e6:1e-3; q.e2=q.e*real(0.05,0.75); w.q.push_back(q); }
  for(Q& q : w.q) q.ref=eval(w,q);
  int nt=1+choose(3); std::vector<int> st[4]; for(int t=0;t<=nt;t++) { int c=1+choose(12); for(int i=0;i<c;i++) st[t].push_back(choose(nq)); }
  std::vector<std::thread> th; bool ld=choose(4)==3; for(int t=1;t<=nt;t++) { if(ld && t==1) { probe("loading at the same time"); th.emplace_back(own,&w,path,!h5src); } else th.emplace_back(work,&w,&st[t]); } work(&w,&st[0]); for(auto& t : th) t.join();
  nontrivial();
}
}
int main(int argc,char** argv) {
  H5open(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
  unsigned f=bit(F_OPEN)|bit(F_READ)|bit(F_WRITE)|bit(F_META)|bit(F_CLOSE)|bit(F_ALLOC)|bit(F_USER);
  static const Scenario s[]={ {"X01","tables",x1,1,f,false,12000000}, {"X02","sharing",x2,1,0,true,8000000} };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
