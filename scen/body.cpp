// B01, B02, B03: bodies and trajectories (src/body.cpp): saving and loading, failing disks and refused library calls, sharing.
#include <nuSQuIDS/body.h>
#include <cmath>
#include <cstring>
#include <memory>
#include <thread>
#include <vector>
#include "../sim/sim.h"
#include "h5seam.h"
using namespace sim;
using namespace nusquids;
namespace {
bool same(double a,double b) { return memcmp(&a,&b,sizeof a)==0 || (a==b); }
const double KM=5.06773093741e9, CM=5.06773093741e4;
enum { VAC, CONST_, VAR, EARTH, SUN, SUNAS, ATM, NB };
const char* BN[]={"Vacuum","ConstantDensity","VariableDensity","Earth","Sun","SunASnu","EarthAtm"};
struct MyAtm : EarthAtm { MyAtm(std::vector<double> a,std::vector<double> b,std::vector<double> c,double r,double h):EarthAtm(a,b,c) { radius=r; SetAtmosphereHeight(h); } };
uint64_t io() { return fired(F_OPEN)+fired(F_READ)+fired(F_WRITE)+fired(F_META)+fired(F_CLOSE); }
std::string table(int kind) { std::string s; char b[200]; int n=4+choose(8); double r=0; for(int i=0;i<n;i++) { double q=n>1?(double)i/(n-1):0; r=q; if(kind==SUN||kind==SUNAS) snprintf(b,sizeof b,"%g %g 1e7 %g 1e16 0.1 %g 0.2\n",1.0-q,r*0.9+0.01,150*std::exp(-5*q),0.3+0.4*q); else snprintf(b,sizeof b,"%g %g %g\n",r*0.98+0.005,13-10*q*q,0.46+0.03*q); s+=b; } return s; }
struct Thing { int kind; std::shared_ptr<Body> b; std::shared_ptr<Track> t; double lo, hi; bool fromfile=false; };
std::shared_ptr<Body> fromtable(int kind,const char* p) { switch(kind) { case EARTH: return std::make_shared<Earth>(p); case SUN: return std::make_shared<Sun>(p); case SUNAS: return std::make_shared<SunASnu>(p); default: return std::make_shared<EarthAtm>(p); } }
Thing make(int kind,bool files) {
  Thing g; g.kind=kind; int n=3+choose(8); std::vector<double> x,a,b; double p=0.001*(1+choose(20)); for(int i=0;i<n;i++) { x.push_back(p); p+=0.02*(1+choose(5)); a.push_back(real(0.1,12)); b.push_back(real(0.3,0.7)); } 
  double R=6371, H=22; 
  switch(kind) { case VAC: g.b=std::make_shared<Vacuum>(); break; case CONST_: g.b=std::make_shared<ConstantDensity>(real(0.1,13),real(0.3,0.7)); break;
    case VAR: { for(double& v : x) v*=1e8; g.b=std::make_shared<VariableDensity>(x,a,b); break; }
    default: if(files && choose(2)) { std::string s=table(kind); disk_put("/simfs/model.dat",s.data(),s.size()); g.b=fromtable(kind,"/simfs/model.dat"); g.fromfile=true; }
      else if(kind==EARTH) g.b=std::make_shared<Earth>(x,a,b); else if(kind==SUN) g.b=std::make_shared<Sun>(x,a,b); else if(kind==SUNAS) g.b=std::make_shared<SunASnu>(x,a,b);
      else { switch(choose(3)) { case 0: g.b=std::make_shared<EarthAtm>(x,a,b); break; case 1: { auto e=std::make_shared<EarthAtm>(x,a,b); H=5+choose(60); e->SetAtmosphereHeight(H); g.b=e; break; } default: R=1000+choose(9000); H=5+choose(60); g.b=std::make_shared<MyAtm>(x,a,b,R,H); probe("non-default Earth"); } } }
  if(kind!=VAC && kind!=CONST_ && choose(5)==4) { g.b->SetIsConstantDensity(true); probe("declared constant"); }
  double end= kind==VAR? x.back()*CM : (kind==SUN||kind==SUNAS)? 695980.0*KM*0.9 : (1+choose(12000))*KM, ini= choose(3)?0.0:end*0.125;
  switch(kind) { case VAC: g.t=std::make_shared<Vacuum::Track>(ini,end); break; case CONST_: g.t=std::make_shared<ConstantDensity::Track>(ini,end); break; case VAR: g.t=std::make_shared<VariableDensity::Track>(ini,end); break;
    case EARTH: g.t= choose(2)?std::make_shared<Earth::Track>(ini,end,end*1.0625):std::make_shared<Earth::Track>(end); break; case SUN: g.t=std::make_shared<Sun::Track>(ini,end); break;
    case SUNAS: g.t=std::make_shared<SunASnu::Track>(choose(3)?0.0:1000*KM,choose(600000)*KM); break;
    default: { EarthAtm& e=static_cast<EarthAtm&>(*g.b); double c=real(-1,1); switch(choose(4)) { case 0: g.t=std::make_shared<EarthAtm::Track>(e.MakeTrackWithCosine(c)); break; case 1: g.t=std::make_shared<EarthAtm::Track>(e.MakeTrack(std::acos(c))); break; case 2: g.t=std::make_shared<EarthAtm::Track>(std::acos(c),R*KM,H*KM); break; default: g.t=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(c,R*KM,H*KM)); } } }
  g.lo=g.t->GetInitialX(); g.hi=g.t->GetFinalX();
  if(choose(2)) { g.t->SetX(g.lo+(g.hi-g.lo)*choose(9)/8.0); probe("partly traversed"); } if(choose(3)==2) { g.t->ReverseTrack(); if(choose(2)) g.t->SetX(g.t->GetInitialX()); probe("reversed"); }
  return g; }
const char* nameof(int k) { return BN[k]; }
double probe_at(const Body& b,Track& t,double x,bool ye) { double k=t.GetX(); t.SetX(x); double r; try { r=ye?b.ye(t):b.density(t); } catch(std::runtime_error&) { r=-4711; } t.SetX(k); return r; }
void compareT(const Thing& g,Track& t,const char* how) {
  if(!same(g.t->GetX(),t.GetX())) fail("wrong-position","%s track: position %.17g was saved, %.17g %s",nameof(g.kind),g.t->GetX(),t.GetX(),how);
  if(!same(g.t->GetInitialX(),t.GetInitialX())) fail("wrong-start","%s track: start %.17g was saved, %.17g %s",nameof(g.kind),g.t->GetInitialX(),t.GetInitialX(),how);
  if(!same(g.t->GetFinalX(),t.GetFinalX())) fail("wrong-end","%s track: end %.17g was saved, %.17g %s",nameof(g.kind),g.t->GetFinalX(),t.GetFinalX(),how);
  std::vector<double> a=g.t->GetTrackParams(), b=t.GetTrackParams(); if(a.size()!=b.size()) fail("wrong-parameters","%s track: number of parameters differs",nameof(g.kind)); for(size_t i=0;i<a.size();i++) if(!same(a[i],b[i])) fail("wrong-parameters","%s track: parameter %zu was %.17g, %.17g %s",nameof(g.kind),i,a[i],b[i],how); }
void compareB(const Thing& g,const Body& b,Track& t,const char* how) {
  std::vector<double> p=g.b->GetBodyParams(), q=b.GetBodyParams(); if(p!=q) fail("wrong-parameters","%s: body parameters differ",nameof(g.kind));
  if(g.b->IsConstantDensity()!=b.IsConstantDensity()) fail("wrong-parameters","%s: declared constant %d was saved, %d %s",nameof(g.kind),(int)g.b->IsConstantDensity(),(int)b.IsConstantDensity(),how);
  if(g.kind==EARTH && !same(static_cast<const Earth&>(*g.b).GetRadius(),static_cast<const Earth&>(b).GetRadius())) fail("wrong-parameters","Earth radius differs"); if(g.kind==SUN && !same(static_cast<const Sun&>(*g.b).GetRadius(),static_cast<const Sun&>(b).GetRadius())) fail("wrong-parameters","Sun radius differs");
  if(g.kind==SUNAS && !same(static_cast<const SunASnu&>(*g.b).GetRadius(),static_cast<const SunASnu&>(b).GetRadius())) fail("wrong-parameters","SunASnu radius was %.17g, %.17g %s",static_cast<const SunASnu&>(*g.b).GetRadius(),static_cast<const SunASnu&>(b).GetRadius(),how);
  if(g.kind==ATM) { const EarthAtm &x=static_cast<const EarthAtm&>(*g.b), &y=static_cast<const EarthAtm&>(b); if(!same(x.GetRadius(),y.GetRadius())||!same(x.GetAtmosphereHeight(),y.GetAtmosphereHeight())) fail("wrong-parameters","EarthAtm radius %.17g and height %.17g were saved, %.17g and %.17g %s",x.GetRadius(),x.GetAtmosphereHeight(),y.GetRadius(),y.GetAtmosphereHeight(),how); }
  for(int i=0;i<=16;i++) { double x=g.lo+(g.hi-g.lo)*i/16.0; for(int ye=0;ye<2;ye++) { double a=probe_at(*g.b,*g.t,x,ye), c=probe_at(b,t,x,ye); if(!same(a,c)) fail(ye?"wrong-electron-fraction":"wrong-density","%s at position %d/16: %.17g was saved, %.17g %s",nameof(g.kind),i,a,c,how); } } }
std::shared_ptr<Body> loadB(hid_t grp) { std::string n; { bool ron=seam::refuse_on; (void)ron; readH5Attribute<std::string>(grp,"name",n); } return GetBodyDeserializer(n)(grp); }
std::shared_ptr<Track> loadT(hid_t grp) { std::string n; readH5Attribute<std::string>(grp,"name",n); return GetTrackDeserializer(n)(grp); }
const char* PATH="/simfs/bodies.h5"; 
hid_t mkg(hid_t f,int i,const char* s) { char b[20]; snprintf(b,sizeof b,"%s%d",s,i); return H5Gcreate2(f,b,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); }
hid_t opg(hid_t f,int i,const char* s) { char b[20]; snprintf(b,sizeof b,"%s%d",s,i); return H5Gopen2(f,b,H5P_DEFAULT); }
void b1() {
  faults_on(false); race_detection(false); seam::begin(); disk_benign(choose(3)==2); int n=1+choose(4), gens=1+choose(2); Thing th[4]; for(int i=0;i<n;i++) { th[i]=make(choose(NB),true); describe("body %d: %s%s\n",i,nameof(th[i].kind),th[i].fromfile?" from a table":""); }
  hid_t f=H5Fcreate(PATH,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); if(f<0) fail("harness","no file");
  std::shared_ptr<Body> sb[4]; std::shared_ptr<Track> st[4]; for(int i=0;i<n;i++) { sb[i]=th[i].b; st[i]=th[i].t; }
  for(int g=0;g<gens;g++) { heap_fill(choose(4)); int base=g*4;
    for(int i=0;i<n;i++) { hid_t a=mkg(f,base+i,"body"), b=mkg(f,base+i,"track"); sb[i]->Serialize(a); st[i]->Serialize(b); H5Gclose(a); H5Gclose(b); }
    if(choose(2)) { if(H5Fclose(f)<0) fail("harness","close"); f=H5Fopen(PATH,H5F_ACC_RDWR,H5P_DEFAULT); if(f<0) fail("file-unreadable","the file cannot be opened again"); describe("file closed and opened again\n"); probe("reopened"); }
    heap_fill(choose(4));
    for(int i=n;i-->0;) { hid_t a=opg(f,base+i,"body"), b=opg(f,base+i,"track"); sb[i]=loadB(a); st[i]=loadT(b); H5Gclose(a); H5Gclose(b); const char* how=g?"was loaded after saving what was loaded":"was loaded"; compareT(th[i],*st[i],how); compareB(th[i],*sb[i],*st[i],how); }
  }
  H5Fclose(f); nontrivial(); check_heap();
}
const char* req(int k,int i) { static const char* t[NB][6]={{"x"},{"constant_density","constant_ye"},{"arraysize","x_arr","density_arr","ye_arr"},{"arraysize","earth_radius","earth_density","earth_ye"},{"arraysize","sun_radius","sun_density","sun_xh"},{"arraysize","sun_radius","sun_density","sun_xh"},{"arraysize","earth_radius","earth_density","earth_ye"}}; int n=k==VAC?0:k==CONST_?2:4; return n?t[k][i%n]:nullptr; }
const char* treq(int k,int i) { static const char* t[]={"x","xini","xend"}; if(k==EARTH && i%4==3) return "baseline"; if(k==ATM) return i%2?"x":"cosphi"; return k==SUNAS?t[i%2]:t[i%3]; }
void b2() {
  faults_on(false); race_detection(false); seam::begin(); disk_benign(choose(4)==3); bool ref=choose(2); Thing g=make(choose(NB),false); describe("%s\n",nameof(g.kind)); bool lim=choose(6)==5;
  if(g.kind>=EARTH && choose(3)==2) { // built from a table on the failing disk
    std::string s=table(g.kind); disk_put("/simfs/model.dat",s.data(),s.size()); if(choose(4)==3) { s=s.substr(0,s.size()/2); s="1 2\n3 4\n5 6\n7 8\n"; disk_put("/simfs/short.dat",s.data(),s.size()); }
    std::shared_ptr<Body> b; bool threw=false, narrow=disk_exists("/simfs/short.dat"); uint64_t f0=fired_total(); faults_on(true); try { b=fromtable(g.kind,narrow?"/simfs/short.dat":"/simfs/model.dat"); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("  building from a table failed: %.60s\n",e.what()); }
    if(!threw && narrow) fail("missing-data-loaded","a table without the needed columns was accepted"); if(threw && !narrow && fired_total()==f0) fail("spurious-failure","building from a table failed although nothing was wrong");
    disk_heal(); if(disk_open_fds()) fail("left-open","the table is still open"); if(!threw) { Thing h=g; h.b=fromtable(g.kind,"/simfs/model.dat"); compareB(h,*b,*g.t,"was built from a table under a failing disk"); probe("built from a table"); } nontrivial(); return; }
  hid_t f=H5Fcreate(PATH,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT), a=mkg(f,0,"body"), b=mkg(f,0,"track"); if(lim) disk_limit(disk_size(PATH)+choose(6000));
  bool damaged=false, threwB=false, threwT=false; const char* by="?"; int mark=seam::nobj, cf=seam::close_failures; uint64_t f0=fired_total();
  seam::refuse_on=ref; faults_on(true); try { g.b->Serialize(a); faults_on(false); } catch(std::exception&) { faults_on(false); threwB=true; } faults_on(true); try { g.t->Serialize(b); faults_on(false); } catch(std::exception&) { faults_on(false); threwT=true; } seam::refuse_on=false;
  int lk=seam::still_open(mark,&by)-(seam::close_failures-cf); if(lk>0) fail("left-open","%d objects left open by saving (made by %s)",lk,by);
  if((threwB||threwT)) { probe("saving failed"); if(fired_total()==f0 && !lim) fail("spurious-failure","saving failed although nothing was wrong"); }
  if(io() || lim) damaged=threwB||threwT;
  if(H5Gclose(a)<0) damaged=true; if(H5Gclose(b)<0) damaged=true; faults_on(!damaged); herr_t c=H5Fclose(f); faults_on(false); if(c<0) { damaged=true; probe("closing failed"); }
  if(damaged) { nontrivial(); return; }
  disk_heal(); disk_limit(~0ull); f=H5Fopen(PATH,H5F_ACC_RDWR,H5P_DEFAULT); if(f<0) fail("file-unreadable","the file cannot be opened after saving and closing were successful"); a=opg(f,0,"body"); b=opg(f,0,"track"); if(a<0||b<0) fail("file-unreadable","the groups cannot be opened after saving and closing were successful");
  const char *mb=nullptr, *mt=nullptr; if(!threwB && choose(4)==3 && (mb=req(g.kind,choose(4)))) { if(H5Aexists(a,mb)>0) H5Adelete(a,mb); else H5Ldelete(a,mb,H5P_DEFAULT); describe("%s removed from the body\n",mb); } if(!threwT && choose(4)==3) { mt=treq(g.kind,choose(4)); if(H5Aexists(b,mt)>0) H5Adelete(b,mt); else mt=nullptr; if(mt) describe("%s removed from the track\n",mt); }
  if(choose(2)) { H5Gclose(a); H5Gclose(b); H5Fclose(f); f=H5Fopen(PATH,H5F_ACC_RDONLY,H5P_DEFAULT); a=opg(f,0,"body"); b=opg(f,0,"track"); if(a<0||b<0) { nontrivial(); return; } }
  heap_fill(choose(4)); std::shared_ptr<Body> lb; std::shared_ptr<Track> lt; bool tb=false, tt=false; mark=seam::nobj; cf=seam::close_failures; uint64_t f1=fired_total(); seam::refuse_on=ref; 
  faults_on(true); if(!threwB) try { lb=loadB(a); faults_on(false); } catch(std::exception& e) { faults_on(false); tb=true; describe("  loading the body failed: %.60s\n",e.what()); } faults_on(true); if(!threwT) try { lt=loadT(b); faults_on(false); } catch(std::exception& e) { faults_on(false); tt=true; describe("  loading the track failed: %.60s\n",e.what()); } faults_on(false); seam::refuse_on=false;
  lk=seam::still_open(mark,&by)-(seam::close_failures-cf); if(lk>0) fail("left-open","%d objects left open by loading (made by %s)",lk,by); if(seam::double_close) fail("closed-twice","an object was closed twice");
  if(tb||tt) probe("loading failed"); if(mb && lb) fail("missing-data-loaded","a %s was loaded although %s is missing",nameof(g.kind),mb); if(mt && lt) fail("missing-data-loaded","a track of %s was loaded although %s is missing",nameof(g.kind),mt); if(mb||mt) probe("data missing");
  if(fired_total()==f1) { if((tb && !mb)||(tt && !mt)) fail("spurious-failure","loading failed although nothing was wrong"); }
  if(lt) compareT(g,*lt,"was loaded"); if(lb) compareB(g,*lb,*g.t,"was loaded");
  nontrivial(); check_heap();
}
// ---- sharing -------------------------------------------------------------------------------------
struct Sh { int n; Thing th[3]; std::vector<double> ref[3]; };
struct Step { int what, obj, pos; };
void work(const Sh* w,const std::vector<Step>* st,std::vector<std::shared_ptr<Track>>* own) {
  for(const Step& s : *st) { const Thing& g=w->th[s.obj]; Track& t=*(*own)[s.obj];
    if(s.what==4) { if(!GetBodyDeserializer(BN[g.kind])) fail("registry","no way to load a registered body"); if(!GetTrackDeserializer(std::string(BN[g.kind])+"Track")) fail("registry","no way to load a registered track"); continue; }
    if(s.what==5) { bool threw=false; try { GetBodyDeserializer("Nowhere"); } catch(std::runtime_error&) { threw=true; } if(!threw) fail("registry","an unknown body was found"); continue; }
    double x=g.lo+(g.hi-g.lo)*s.pos/16.0; t.SetX(x); double v; bool ye=s.what&1; try { v=ye?g.b->ye(t):g.b->density(t); } catch(std::runtime_error&) { v=-4711; }
    if(!same(v,w->ref[s.obj][s.pos*2+ye])) fail("different-answer","%s at position %d/16 gave %.17g, alone %.17g",nameof(g.kind),s.pos,v,w->ref[s.obj][s.pos*2+ye]); } }
std::shared_ptr<Track> clone(const Thing& g) { switch(g.kind) { case VAC: return std::make_shared<Vacuum::Track>(static_cast<Vacuum::Track&>(*g.t)); case CONST_: return std::make_shared<ConstantDensity::Track>(static_cast<ConstantDensity::Track&>(*g.t)); case VAR: return std::make_shared<VariableDensity::Track>(static_cast<VariableDensity::Track&>(*g.t)); case EARTH: return std::make_shared<Earth::Track>(static_cast<Earth::Track&>(*g.t)); case SUN: return std::make_shared<Sun::Track>(static_cast<Sun::Track&>(*g.t)); case SUNAS: return std::make_shared<SunASnu::Track>(static_cast<SunASnu::Track&>(*g.t)); default: return std::make_shared<EarthAtm::Track>(static_cast<EarthAtm::Track&>(*g.t)); } }
void b3() {
  faults_on(false); race_detection(true); Sh w; w.n=1+choose(3); for(int k=0;k<w.n;k++) { w.th[k]=make(choose(NB),false); describe("%s\n",nameof(w.th[k].kind)); }
  bool before=choose(2); auto refs=[&]{ for(int k=0;k<w.n;k++) { std::shared_ptr<Track> t=clone(w.th[k]); for(int i=0;i<=16;i++) for(int ye=0;ye<2;ye++) w.ref[k].push_back(probe_at(*w.th[k].b,*t,w.th[k].lo+(w.th[k].hi-w.th[k].lo)*i/16.0,ye)); } }; (void)before; refs();
  int nt=1+choose(3); std::vector<Step> st[4]; std::vector<std::shared_ptr<Track>> own[4]; for(int t=0;t<=nt;t++) { int c=1+choose(12); for(int i=0;i<c;i++) { Step s; s.what=choose(6); s.obj=choose(w.n); s.pos=choose(17); st[t].push_back(s); } for(int k=0;k<w.n;k++) own[t].push_back(clone(w.th[k])); }
  std::vector<std::thread> th; for(int t=1;t<=nt;t++) th.emplace_back(work,&w,&st[t],&own[t]); work(&w,&st[0],&own[0]); for(auto& t : th) t.join();
  nontrivial();
}
}
int main(int argc,char** argv) {
  H5open(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
  unsigned io=bit(F_OPEN)|bit(F_READ)|bit(F_WRITE)|bit(F_META)|bit(F_CLOSE)|bit(F_ALLOC)|bit(F_USER);
  static const Scenario s[]={ {"B01","save-load",b1,1,0,false,8000000}, {"B02","failing-storage",b2,1,io,false,8000000}, {"B03","sharing",b3,1,0,true,8000000} };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
