// A01-A09, S01-S03, X03: evolution (src/nuSQuIDS.cpp, include/nuSQuIDS/nuSQuIDS.h): many zenith angles in threads, failing evolutions,
// histories of one object, moved objects, concurrent evaluation, equivalent modes, saving and restoring.
#include <cassert>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <thread>
#include <vector>
#include <nuSQuIDS/nuSQuIDS.h>
#include "../sim/sim.h"
#include "h5seam.h"
#include "tabs.h"
using namespace sim;
using namespace nusquids;
typedef NeutrinoCrossSections X;
namespace {
const squids::Const U;
uint64_t misaligned; bool watch;
bool skipsurface; // a path which was stored as an angle ends at the surface up to rounding only: inside or outside
bool same(double a,double b) { return memcmp(&a,&b,sizeof a)==0 || a==b || (a!=a && b!=b); }
uint64_t io() { return fired(F_OPEN)+fired(F_READ)+fired(F_WRITE)+fired(F_META)+fired(F_CLOSE); }

// ---- the parts around the evolution -----------------------------------------------------------------
bool armed;
void emit_user() { if(armed && fault(F_USER)) throw std::runtime_error("the user's body or cross section failed"); }
struct Mock : X { double s, a, b; int bad; Mock(double s,double a,double b): s(s),a(a),b(b),bad(-1) {}
  double sig(double e,int f,int t,int c) const { return s*std::pow(e/1e12,a)*(1+0.2*f)*(t?0.6:1)*(c==X::NC?0.4:c==X::GR?3:1); }
  double TotalCrossSection(double e,NeutrinoFlavor f,NeutrinoType t,Current c) const override { return sig(e,f,t,c); }
  double SingleDifferentialCrossSection(double e,double e2,NeutrinoFlavor f,NeutrinoType t,Current c) const override { if(e2>=e) return 0; return sig(e,f,t,c)/(e/1e9)*(1+b*e2/e); }
  double AverageTotalCrossSection(double lo,double hi,NeutrinoFlavor f,NeutrinoType t,Current c) const override { if(f==tau && c==CC) emit_user(); return sig(std::sqrt(lo*hi),f,t,c); }
  double AverageSingleDifferentialCrossSection(double e,double lo,double hi,NeutrinoFlavor f,NeutrinoType t,Current c) const override { return SingleDifferentialCrossSection(e,0.5*(lo+hi),f,t,c); } };
std::shared_ptr<CrossSectionLibrary> library(bool per,double a) { auto l=std::make_shared<CrossSectionLibrary>(); double s=3e-34; if(per) { l->addTarget(proton,Mock(s,0.3,a)); l->addTarget(neutron,Mock(0.7*s,0.4,1-a)); } else l->addTarget(isoscalar_nucleon,Mock(s,0.35,a)); l->addTarget(nusquids::electron,Mock(2*s,0.2,0.5)); return l; }
// a body which emits neutrinos, of a type the library does not know
struct Emit : EarthAtm { double amp; int r0=0; explicit Emit(double a): amp(a) {}
  static std::string GetName() { return "Emit"; }
  void Serialize(hid_t g) const override { EarthAtm::Serialize(g); H5Adelete(g,"name"); addH5Attribute<std::string>(g,"name",GetName()); addH5Attribute(g,"amp",amp); }
  static std::shared_ptr<Emit> Deserialize(hid_t g) { auto r=std::make_shared<Emit>(0.); readH5Attribute(g,"amp",r->amp); return r; }
  void injected_neutrino_flux(marray<double,3>& f,const GenericTrack& t,const nuSQUIDS&) override { emit_user(); double x=std::fabs(t.GetX()/(1e4*U.km)); for(size_t e=0;e<f.extent(0);e++) for(size_t r=0;r<f.extent(1);r++) for(size_t k=0;k<f.extent(2);k++) f[e][r][k]=amp*(1+0.1*e+0.2*(r+r0)+0.3*k)*(1+0.5*x); } };
nusquids::detail::registerBody regEmit("Emit",Emit::Deserialize);
const char* PREM="0 1.2 0.466\n0.3 1.1 0.467\n0.55 0.9 0.47\n0.7 0.7 0.48\n0.9 0.6 0.49\n0.99 0.5 0.495\n1 0.4 0.5\n";
struct T : nuSQUIDS { int remark=-1; using nuSQUIDS::nuSQUIDS; T() {} T(T&&)=default; T& operator=(T&&)=default;
  void user() const { if(armed && fault(F_USER)) throw std::runtime_error("the user's part failed"); }
  void AddToPreDerive(double) override { user(); }
  void AddToWriteHDF5(hid_t g) const override { user(); addH5Attribute(g,"remark",remark); }
  void AddToReadHDF5(hid_t g) override { user(); readH5Attribute(g,"remark",remark); } };
typedef nuSQUIDSAtm<T> Atm;

// ---- settings ---------------------------------------------------------------------------------------
struct Cfg { int nn, NT, ne, nz, steps, pre; bool multi, inter, per, gr, tau, osc, pos, src, low, cnst, ba, sterile, mixed; double E[6], cz[6], th, dcp, dm, ini[8], amp, a, posl;  int only=-1; double scale=1, ex[4]={0,0,0,0}; };
void gen(Cfg& c,int kind) { // 0 one energy, 1 many energies, 2 zenith angles
  c.multi=kind>0; c.nn=choose(4)==3?4:3; c.NT=kind?1+choose(3):1+choose(2); c.nz=kind==2?(choose(8)==7?1:2+choose(3)):1; static const int ns[]={3,2,4,5,1,6}; c.ne=kind?ns[choose(6)]:1;
  c.inter=kind && c.ne>1 && choose(3)!=2; c.per=choose(2); c.gr=c.inter && choose(2); c.tau=c.inter && c.NT==3 && choose(2); c.osc=choose(5)!=4; c.pos=choose(4)==3; c.src=kind && choose(4)==3; c.low=choose(8)==7; c.cnst=!c.inter && choose(4)==3; c.ba=choose(6)==5; c.steps=1+choose(2); c.mixed=choose(3)==2;
  double e=std::pow(10.,11+0.25*choose(5)); for(int i=0;i<6;i++) { c.E[i]=e; e*=1.3+0.2*choose(5); } double z=-0.95+0.1*choose(4); for(int i=0;i<6;i++) { c.cz[i]=z; z+=0.15+0.05*choose(4); }
  c.th=0.2*choose(4); c.dcp=0.5*choose(4); c.dm=2e-3+5e-4*choose(3); for(int i=0;i<8;i++) c.ini[i]=choose(3)?0.25*(1+choose(4)):0; c.amp=1e-15*(1+choose(3)); c.a=0.25*choose(4); c.posl=(2000+1000*choose(8))*U.km; c.pre=choose(3); c.sterile=c.nn==4; if(c.ba) c.cnst=false; }
void tell(const Cfg& c) { describe("%d flavours, type %d, %d energies, %d angles%s%s%s%s%s%s%s%s%s, %d steps\n",c.nn,c.NT,c.ne,c.nz,c.inter?(c.per?", interactions with protons and neutrons":", interactions"):"",c.gr?", Glashow":"",c.tau?", tau":"",c.osc?"":", no oscillations",c.pos?", positivity":"",c.src?", sources":"",c.low?", low-pass":"",c.cnst?", constant density mode":"",c.ba?", mass basis":"",c.steps); }
template<class N> void numerics(N& n,const Cfg& c) { n.Set_AdaptiveStep(false); n.Set_NumSteps(c.steps); }
// every setting there is, explicitly
void apply(T& n,const Cfg& c) { numerics(n,c); n.Set_h(1.*U.km); n.Set_h_max(std::numeric_limits<double>::max()); n.Set_Basis(c.ba?mass:interaction); n.Set_IncludeOscillations(c.osc); n.Set_PositivityConstrain(c.pos); if(c.posl>0) n.Set_PositivityConstrainStep(c.posl); n.Set_EvolLowPassCutoff(c.low?1e-14:0); n.Set_EvolLowPassScale(c.low?1e-15:0); n.Set_AllowConstantDensityOscillationOnlyEvolution(c.cnst);
  if(c.multi) n.Set_NeutrinoSources(c.src); if(c.inter) { n.Set_GlashowResonance(c.gr); n.Set_TauRegeneration(c.tau); }
  n.Set_MixingAngle(0,1,0.58+0.1*c.th); n.Set_MixingAngle(0,2,0.15); n.Set_MixingAngle(1,2,0.8+0.1*c.th); if(c.nn==4) { n.Set_MixingAngle(1,3,0.2+c.th); n.Set_MixingAngle(0,3,0.1); n.Set_MixingAngle(2,3,0); n.Set_SquareMassDifference(3,0.1); } n.Set_CPPhase(0,2,c.dcp); n.Set_SquareMassDifference(1,7.4e-5); n.Set_SquareMassDifference(2,c.dm); }
double iniv(const Cfg& c,int z,int e,int r,int f) { if(c.only>=0 && c.only!=(c.only<2?r:2+f)) return 0; return c.scale*(c.ini[(z+2*e+4*r+f)&7]+0.1*f+0.01*e+(f==1)); }
void state(T& n,const Cfg& c,int z=0) { Basis b=c.mixed?mass:flavor; if(!c.multi) { marray<double,1> v{(size_t)c.nn}; for(int f=0;f<c.nn;f++) v[f]=iniv(c,z,0,0,f); n.Set_initial_state(v,b); }
  else if(c.NT!=3) { marray<double,2> v{(size_t)c.ne,(size_t)c.nn}; for(int e=0;e<c.ne;e++) for(int f=0;f<c.nn;f++) v[e][f]=iniv(c,z,e,0,f); n.Set_initial_state(v,b); }
  else { marray<double,3> v{(size_t)c.ne,2,(size_t)c.nn}; for(int e=0;e<c.ne;e++) for(int r=0;r<2;r++) for(int f=0;f<c.nn;f++) v[e][r][f]=iniv(c,z,e,r,f); n.Set_initial_state(v,b); } }
template<class B> void state(nuSQUIDSAtm<B>& n,const Cfg& c) { Basis b=c.mixed?mass:flavor; size_t Z=c.nz,E=c.ne,N=c.nn; if(c.NT!=3) { marray<double,3> v{Z,E,N}; for(size_t z=0;z<Z;z++) for(size_t e=0;e<E;e++) for(size_t f=0;f<N;f++) v[z][e][f]=iniv(c,z,e,0,f); n.Set_initial_state(v,b); } else { marray<double,4> v{Z,E,2,N}; for(size_t z=0;z<Z;z++) for(size_t e=0;e<E;e++) for(size_t r=0;r<2;r++) for(size_t f=0;f<N;f++) v[z][e][r][f]=iniv(c,z,e,r,f); n.Set_initial_state(v,b); } }
marray<double,1> erange(const Cfg& c) { marray<double,1> e{(size_t)c.ne}; for(int i=0;i<c.ne;i++) e[i]=c.E[i]; return e; }
T* fresh(const Cfg& c,std::shared_ptr<CrossSectionLibrary> l) { T* n; if(!c.multi) { n=new T(c.nn,NeutrinoType(c.NT)); n->Set_E(c.E[0]); } else n=new T(erange(c),c.nn,NeutrinoType(c.NT),c.inter,l); return n; }
// the same settings made on an ensemble as a whole (there is no such call for the basis and the numerics)
void applyAll(Atm& n,const Cfg& c,bool byindex) { for(auto& q : n.GetnuSQuIDS()) { numerics(q,c); q.Set_Basis(c.ba?mass:interaction); } if(byindex) for(int i=0;i<c.nz;i++) { n.Set_h(1.*U.km,i); n.Set_h_max(std::numeric_limits<double>::max(),i); } else { n.Set_h(1.*U.km); n.Set_h_max(std::numeric_limits<double>::max()); } n.Set_IncludeOscillations(c.osc); n.Set_PositivityConstrain(c.pos); if(c.posl>0) n.Set_PositivityConstrainStep(c.posl); n.Set_EvolLowPassCutoff(c.low?1e-14:0); n.Set_EvolLowPassScale(c.low?1e-15:0); n.Set_AllowConstantDensityOscillationOnlyEvolution(c.cnst);
  n.Set_NeutrinoSources(c.src); if(c.inter) { n.Set_GlashowResonance(c.gr); n.Set_TauRegeneration(c.tau); } n.Set_MixingParametersToDefault();
  n.Set_MixingAngle(0,1,0.58+0.1*c.th); n.Set_MixingAngle(0,2,0.15); n.Set_MixingAngle(1,2,0.8+0.1*c.th); if(c.nn==4) { n.Set_MixingAngle(1,3,0.2+c.th); n.Set_MixingAngle(0,3,0.1); n.Set_MixingAngle(2,3,0); n.Set_SquareMassDifference(3,0.1); } n.Set_CPPhase(0,2,c.dcp); n.Set_SquareMassDifference(1,7.4e-5); n.Set_SquareMassDifference(2,c.dm);
  if(n.Get_MixingAngle(0,1)!=n.GetnuSQuIDS(c.nz-1).Get_MixingAngle(0,1) || n.Get_CPPhase(0,2)!=n.GetnuSQuIDS(c.nz-1).Get_CPPhase(0,2) || n.Get_SquareMassDifference(2)!=n.GetnuSQuIDS(c.nz-1).Get_SquareMassDifference(2)) fail("setting-lost","a mixing parameter given to an ensemble did not reach its last zenith angle"); }
Atm* freshAtm(const Cfg& c,std::shared_ptr<CrossSectionLibrary> l,std::shared_ptr<EarthAtm> b) { marray<double,1> z{(size_t)c.nz}; for(int i=0;i<c.nz;i++) z[i]=c.cz[i]; Atm* n=new Atm(z,erange(c),(unsigned)c.nn,NeutrinoType(c.NT),c.inter,l); if(b) n->Set_EarthModel(b); if(choose(2)) applyAll(*n,c,choose(2)); else for(auto& q : n->GetnuSQuIDS()) apply(q,c); state(*n,c); return n; }
// ---- bodies and paths ---------------------------------------------------------------------------------
struct Path { int kind; double a, b, rho, ye, cz; bool rev; };
void genp(Path& p,bool emit) { p.kind=emit?3:choose(4); p.a=choose(2)?0:100*choose(5); p.b=p.a+200*(1+choose(10)); p.rho=0.5+0.5*choose(3); p.ye=0.45+0.05*choose(2); p.cz=-0.9+0.2*choose(8); p.rev=choose(5)==4; }
std::shared_ptr<Body> body(const Path& p,const Cfg& c) { switch(p.kind) { case 0: return std::make_shared<ConstantDensity>(p.rho,p.ye); case 1: return std::make_shared<Vacuum>(); case 2: return std::make_shared<VariableDensity>(std::vector<double>{0,1000*U.km,1500*U.km,2500*U.km},std::vector<double>{p.rho,0.7,0.6,0.8},std::vector<double>{p.ye,0.5,0.49,0.47}); default: if(c.src) return std::make_shared<Emit>(c.amp); return std::make_shared<EarthAtm>(); } }
std::shared_ptr<Track> track(const Path& p) { std::shared_ptr<Track> t; switch(p.kind) { case 0: t=std::make_shared<ConstantDensity::Track>(p.a*U.km,p.b*U.km); break; case 1: t=std::make_shared<Vacuum::Track>(p.a*U.km,p.b*U.km); break; case 2: t=std::make_shared<VariableDensity::Track>(p.a*U.km,p.b*U.km); break; default: { EarthAtm e; t=std::make_shared<EarthAtm::Track>(e.MakeTrackWithCosine(p.cz)); } } if(p.rev) t->ReverseTrack(); return t; }
// ---- what can be seen of an object --------------------------------------------------------------------
typedef std::vector<double> Snap;
void see(Snap& s,const T& n,const Cfg& c) { s.push_back(n.Get_t()); s.push_back(n.GetTrackFast().GetX()); for(int e=0;e<c.ne;e++) for(unsigned r=0;r<n.GetNumRho();r++) { auto v=n.GetState(e,r).GetComponents(); s.insert(s.end(),v.begin(),v.end()); for(int f=0;f<c.nn;f++) { s.push_back(n.EvalFlavorAtNode(f,e,r)); s.push_back(n.EvalMassAtNode(f,e,r)); } } if(!c.multi) { s.push_back(n.EvalFlavor(1)); s.push_back(n.EvalMass(1)); } else if(c.ne>1) { double e=0.3*c.E[0]+0.7*c.E[1]; std::vector<bool> av(c.nn); for(unsigned r=0;r<n.GetNumRho();r++) for(int f=0;f<c.nn;f++) { s.push_back(n.EvalFlavor(f,e,r)); s.push_back(n.EvalMass(f,e,r)); s.push_back(n.EvalFlavor(f,e,r,3.,av)); s.push_back(n.EvalMass(f,e,r,3.,av)); } } }
void see(Snap& s,Atm& n,const Cfg& c) { for(auto& q : n.GetnuSQuIDS()) see(s,q,c); for(unsigned r=0;r<n.GetNumRho();r++) { s.push_back(n.EvalFlavor(1,c.cz[0],c.E[0],r)); s.push_back(n.EvalFlavor(0,c.cz[c.nz-1],c.E[c.ne-1],r)); } std::vector<bool> av(c.nn); if(c.ne>1) for(int i=0;i+1<c.nz;i++) for(unsigned r=0;r<n.GetNumRho();r++) { double z=0.4*c.cz[i]+0.6*c.cz[i+1], e=0.5*(c.E[0]+c.E[1]); s.push_back(n.EvalFlavor(1,z,e,r)); s.push_back(n.EvalFlavor(1,z,e,r,3.,av)); } for(unsigned r=0;r<n.GetNumRho();r++) { auto a=n.GetStates(r); for(double x : a) s.push_back(x); } }
template<class N> Snap snap(N& n,const Cfg& c) { Snap s; see(s,n,c); return s; }
// tol>0: relative to the number itself or to the largest one; tol<0: to the number itself only
int differ(const Snap& a,const Snap& b,double tol) { if(a.size()!=b.size()) return 0; double m=0; if(tol>0) for(double x : a) if(std::fabs(x)<1e6 && std::fabs(x)>m) m=std::fabs(x); for(size_t i=0;i<a.size();i++) if(!same(a[i],b[i]) && !(tol!=0 && (std::fabs(a[i]-b[i])<=std::fabs(tol)*std::max(std::fabs(a[i]),std::fabs(b[i])) || (tol>0 && std::fabs(a[i])<1e6 && std::fabs(a[i]-b[i])<=tol*m)))) return (int)i; return -1; }
void equal(const Snap& a,const Snap& b,double tol,const char* cls,const char* what) { int i=differ(a,b,tol); if(i>=0) { if(a.size()!=b.size()) fail(cls,"%s: %zu numbers and %zu",what,a.size(),b.size()); fail(cls,"%s: number %d of %zu is %.17g and should be %.17g",what,i,a.size(),b[i],a[i]); } }
struct Count : std::streambuf { size_t n=0; int overflow(int c) override { n++; return c; } std::streamsize xsputn(const char*,std::streamsize k) override { n+=k; return k; } };
void begin(bool races) { faults_on(false); race_detection(races); seam::begin(); std::clog.rdbuf(nullptr); std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); disk_benign(false); disk_put("/simfs//astro/EARTH_MODEL_PREM.dat",PREM,strlen(PREM)); skipsurface=false; armed=false; watch=false; misaligned=0; }

// ---- A01: threads against one thread -------------------------------------------------------------------
void legs(T* n,const Cfg* c,const Path* p,int k,Snap* out) { for(int i=0;i<k;i++) { n->Set_Body(body(p[i],*c)); n->Set_Track(track(p[i])); if(i==0) state(*n,*c); n->EvolveState(); see(*out,*n,*c); } }
void a1() {
  begin(true); Cfg c; int kind=choose(4); 
  if(kind==3) { // independent objects in threads of the user
    gen(c,1); tell(c); probe("independent objects"); auto l=library(c.per,c.a); int nt=1+choose(2), k=1+choose(2); Path p[2]; genp(p[0],c.src); genp(p[1],c.src); std::unique_ptr<T> ref, o[3]; Snap want, got[3]; { Quiet q; ref.reset(fresh(c,l)); apply(*ref,c); legs(ref.get(),&c,p,k,&want); for(int i=0;i<=nt;i++) { o[i].reset(fresh(c,l)); apply(*o[i],c); } }
    std::vector<std::thread> th; for(int i=1;i<=nt;i++) th.emplace_back(legs,o[i].get(),&c,p,k,&got[i]); legs(o[0].get(),&c,p,k,&got[0]); for(auto& t : th) t.join(); for(int i=0;i<=nt;i++) equal(want,got[i],0,"thread-dependent","evolving independent objects at the same time changed the result"); nontrivial(); return; }
  gen(c,2); int nt=2+choose(3); int k=1+choose(2); tell(c); describe("%d threads, %d evolutions\n",nt,k); if(nt>c.nz) probe("more threads than angles");
  auto l=library(c.per,c.a); std::unique_ptr<Atm> a,b; { Quiet q; a.reset(freshAtm(c,l,c.src?std::make_shared<Emit>(c.amp):nullptr)); b.reset(freshAtm(c,l,c.src?std::make_shared<Emit>(c.amp):nullptr)); } b->Set_EvalThreads(nt);
  for(int i=0;i<k;i++) { Snap s; { Quiet q; if(i) { state(*a,c); state(*b,c); } a->EvolveState(); s=snap(*a,c); } b->EvolveState(); if(threads_alive()!=1) fail("threads-left","%u threads are alive after the evolution",threads_alive()-1); Quiet q; equal(s,snap(*b,c),0,"thread-dependent","evolving in threads changed the result"); }
  nontrivial();
}
// ---- A02: failing evolutions -----------------------------------------------------------------------------
void a2() {
  begin(false); Cfg c; gen(c,2); int nt=1+choose(4); bool bar=choose(3)==2; tell(c); describe("%d threads%s\n",nt,bar?", progress bar":""); auto l=library(c.per,c.a); std::unique_ptr<Atm> a,b; Snap want; Count out; std::cout.rdbuf(&out);
  { Quiet q; a.reset(freshAtm(c,l,c.src?std::make_shared<Emit>(c.amp):nullptr)); b.reset(freshAtm(c,l,c.src?std::make_shared<Emit>(c.amp):nullptr)); a->EvolveState(); want=snap(*a,c); } b->Set_EvalThreads(nt); b->Set_ProgressBar(bar);
  int k=1+choose(2); bool ever=false;
  for(int i=0;i<k;i++) { bool threw=false; uint64_t f0=fired_total()-fired(F_SPURIOUS); armed=true; faults_default(true); faults_on(true); try { b->EvolveState(); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("evolution failed: %.60s\n",e.what()); } armed=false; faults_default(false); uint64_t f=fired_total()-fired(F_SPURIOUS)-f0;
    if(threads_alive()!=1) fail("threads-left","%u threads are alive after the evolution",threads_alive()-1); if(f && !threw) fail("swallowed","something failed during the evolution, which returned as if all had gone well"); if(!f && threw) fail("spurious-failure","the evolution failed although nothing was wrong"); if(threw) { ever=true; probe("evolution failed"); }
    Quiet q; if(!threw) equal(want,snap(*b,c),0,"thread-dependent","evolving in threads changed the result"); state(*b,c); }
  Quiet q; b->Set_EvalThreads(1); out.n=0; b->EvolveState(); equal(want,snap(*b,c),0,"state-damaged",ever?"after a failed evolution a new one gives a different result":"a second evolution gives a different result"); if((out.n>0)!=bar) fail("setting-lost","the progress bar was %s before the evolution and is %s after it",bar?"on":"off",bar?"off":"on");
  nontrivial(); check_heap();
}

// ---- A03: the history of an object ----------------------------------------------------------------------
struct Hist { std::shared_ptr<CrossSectionLibrary> l[2]; };
void settings(Cfg& d,const Cfg& c) { Cfg e; gen(e,c.multi?1:0); d=e; d.nn=c.nn; d.NT=c.NT; d.ne=c.ne; d.multi=c.multi; d.nz=1; d.inter=c.inter; d.per=c.per; d.gr=c.inter && e.gr; d.tau=c.inter && c.NT==3 && choose(2); if(c.inter) d.cnst=false; if(c.multi) for(int i=0;i<6;i++) d.E[i]=c.E[i]; }
void oneleg(T& n,const Cfg& c,const Path& p,bool first) { n.Set_Body(body(p,c)); n.Set_Track(track(p)); if(first) state(n,c); n.EvolveState(); }
void a3() {
  begin(false); Cfg c, d; gen(c,choose(3)?1:0); tell(c); Hist h; h.l[0]=library(c.per,c.a); h.l[1]=library(c.per,0.9); std::unique_ptr<T> n(fresh(c,h.l[0])); int k=1+choose(4); bool lib=false;
  for(int i=0;i<k;i++) { settings(d,c); Path p; genp(p,d.src); bool threw=false, st=choose(4)!=3||i==0; uint64_t f0=fired_total();
    describe("earlier: path kind %d%s%s%s%s%s%s%s%s%s\n",p.kind,p.rev?" reversed":"",d.osc?"":", no oscillations",d.pos?", positivity":"",d.src?", sources":"",d.gr?", Glashow":"",d.tau?", tau":"",d.cnst?", constant density mode":"",d.ba?", mass basis":"",st?"":", continued");
    if(choose(3)==2) { int w=choose(2); n->SetNeutrinoCrossSections(h.l[w]); lib=true; }
    try { std::shared_ptr<Body> b=body(p,d); std::shared_ptr<Track> t=track(p); armed=true; faults_on(true); 
      if(!c.multi) n->Set_E(d.E[0]); if(st) apply(*n,d); n->Set_Body(b); n->Set_Track(t); if(st) state(*n,d); n->EvolveState(); if(choose(4)==3) n->GetHamiltonian(0); if(choose(4)==3) n->EvalFlavorAtNode(0,0); faults_on(false);
    } catch(std::exception& e) { faults_on(false); threw=true; describe("failed: %.60s\n",e.what()); } armed=false;
    if(threw) { probe("an earlier evolution failed"); if(fired_total()==f0 && st) fail("spurious-failure","an evolution failed although nothing was wrong"); } if(!st && threw && fired_total()==f0) probe("state needed again"); }
  settings(d,c); Path p[2]; genp(p[0],d.src); genp(p[1],d.src); int w=choose(2); bool setl=lib||choose(2); if(!setl) w=0; int legs=1+choose(2); std::unique_ptr<T> r(fresh(d,h.l[w])); apply(*r,d); if(setl) n->SetNeutrinoCrossSections(h.l[w]); if(!c.multi) n->Set_E(d.E[0]); apply(*n,d);
  describe("now: "); tell(d); if(choose(2) && !d.cnst) { try { std::shared_ptr<Body> b=body(p[0],d); std::shared_ptr<Track> t=track(p[0]); armed=true; faults_on(true); n->Set_Body(b); n->Set_Track(t); state(*n,d); n->EvolveState(); faults_on(false); } catch(std::exception& e) { faults_on(false); probe("failed with the settings kept"); describe("failed: %.60s, tried again with the same settings\n",e.what()); } armed=false; }
  for(int i=0;i<legs;i++) { describe("path kind %d%s\n",p[i].kind,p[i].rev?" reversed":""); oneleg(*r,d,p[i],i==0); oneleg(*n,d,p[i],i==0); equal(snap(*r,d),snap(*n,d),0,"history-dependent","an object used before gives another result than a fresh one"); }
  nontrivial(); check_heap();
}
// the same for an ensemble: settings, models, numbers of threads and failures of earlier evolutions leave nothing behind
void settings2(Cfg& d,const Cfg& c) { Cfg e; gen(e,2); d=e; d.nn=c.nn; d.NT=c.NT; d.ne=c.ne; d.nz=c.nz; d.multi=c.multi; d.inter=c.inter; d.per=c.per; d.gr=c.inter && e.gr; d.tau=c.inter && c.NT==3 && choose(2); if(c.inter) d.cnst=false; for(int i=0;i<6;i++) { d.E[i]=c.E[i]; } for(int i=0;i<c.nz;i++) d.cz[i]=c.cz[i]; }
std::shared_ptr<EarthAtm> model2(const Cfg& d,double h) { std::shared_ptr<EarthAtm> e=d.src?std::make_shared<Emit>(d.amp):std::make_shared<EarthAtm>(); if(h>0) e->SetAtmosphereHeight(h); return e; }
void a3all() {
  begin(false); seam::rec=false; Cfg c, d; gen(c,2); tell(c); Hist h; h.l[0]=library(c.per,c.a); h.l[1]=library(c.per,0.9); std::unique_ptr<Atm> n; { Quiet q; n.reset(freshAtm(c,h.l[0],c.src?std::make_shared<Emit>(c.amp):nullptr)); } int k=1+choose(3); bool lib=false, bar=choose(4)==3; if(bar) n->Set_ProgressBar(true);
  auto set=[&](Atm& m,const Cfg& e) { if(choose(2)) applyAll(m,e,choose(2)); else for(auto& q : m.GetnuSQuIDS()) apply(q,e); };
  for(int i=0;i<k;i++) { settings2(d,c); bool threw=false, early=choose(4)==3; uint64_t f0=fired_total()-fired(F_SPURIOUS); double high=choose(2)?5.+15*choose(5):0; int thr=1+choose(3); describe("earlier: %d threads, atmosphere %g%s%s%s%s%s%s%s%s\n",thr,high,d.osc?"":", no oscillations",d.pos?", positivity":"",d.src?", sources":"",d.gr?", Glashow":"",d.tau?", tau":"",d.cnst?", constant density mode":"",d.ba?", mass basis":"",early?", everything may fail":"");
    auto prep=[&]{ if(choose(2)) { n->SetNeutrinoCrossSections(h.l[choose(2)]); lib=true; } n->Set_EarthModel(model2(d,high)); n->Set_EvalThreads(thr); set(*n,d); state(*n,d); };
    try { if(!early) prep(); armed=true; faults_default(true); faults_on(true); if(early) prep(); n->EvolveState(); if(choose(4)==3) n->EvalFlavor(0,c.cz[0],c.E[0],0); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("failed: %.60s\n",e.what()); } armed=false; faults_default(false);
    if(threw) { probe("an earlier evolution failed"); if(fired_total()-fired(F_SPURIOUS)==f0) fail("spurious-failure","an evolution failed although nothing was wrong"); } }
  settings2(d,c); double high=choose(2)?5.+15*choose(5):0; int w=choose(2), legs=1+choose(2), thr=1+choose(3); bool setl=lib||choose(2); if(!setl) w=0; describe("now: %d threads, ",thr); tell(d); std::unique_ptr<Atm> r; { Quiet q; r.reset(freshAtm(d,h.l[w],model2(d,high))); if(setl) n->SetNeutrinoCrossSections(h.l[w]); n->Set_EarthModel(model2(d,high)); set(*n,d); } n->Set_EvalThreads(thr);
  if(choose(2) && !d.cnst) { try { armed=true; faults_default(true); faults_on(true); state(*n,d); n->EvolveState(); faults_on(false); } catch(std::exception& e) { faults_on(false); probe("failed with the settings kept"); describe("failed: %.60s, tried again with the same settings\n",e.what()); } armed=false; faults_default(false); }
  for(int i=0;i<legs;i++) { { Quiet q; state(*r,d); state(*n,d); r->EvolveState(); } n->EvolveState(); Quiet q; equal(snap(*r,d),snap(*n,d),0,"history-dependent","an ensemble used before gives another result than a fresh one"); }
  if(bar) { std::stringbuf o; { Quiet q; state(*n,d); std::cout.rdbuf(&o); } n->EvolveState(); std::cout.rdbuf(nullptr); Quiet q; if(o.str().find("cos(th)")==std::string::npos) fail("history-dependent","the progress bar was switched off by an earlier evolution"); probe("progress told"); }
  probe("ensembles"); nontrivial(); check_heap();
}
// ---- A04: moved objects -----------------------------------------------------------------------------------
void relocate(std::unique_ptr<T>& m,const Cfg& c,std::shared_ptr<CrossSectionLibrary> l) { static const char* how[]={"moved","assigned","assigned over another","kept in a growing vector"}; int w=choose(4); describe("%s\n",how[w]);
  if(w==0) m.reset(new T(std::move(*m))); else if(w==1) { std::unique_ptr<T> x(new T); *x=std::move(*m); m=std::move(x); }
  else if(w==2) { Cfg d; gen(d,choose(2)); Path p; genp(p,d.src); std::unique_ptr<T> x(fresh(d,library(d.per,d.a))); apply(*x,d); oneleg(*x,d,p,true); *x=std::move(*m); m=std::move(x); probe("assigned over another"); }
  else { std::vector<T> v; v.push_back(std::move(*m)); for(int i=0;i<3;i++) v.push_back(T()); std::unique_ptr<T> x(new T(std::move(v[0]))); m=std::move(x); } }
void relocate(std::unique_ptr<Atm>& m) { static const char* how[]={"moved","assigned over another","moved twice","assigned over a moved one","assigned over one without a state"}; int w=choose(5); describe("%s\n",how[w]); if(w==0) m.reset(new Atm(std::move(*m))); else if(w==2) { Atm t(std::move(*m)); m.reset(new Atm(std::move(t))); } else if(w==4) { marray<double,1> z{1}, e{2}; z[0]=-0.3; e[0]=1e11; e[1]=2e11; std::unique_ptr<Atm> x(new Atm(z,e,3u,NeutrinoType(1),false)); *x=std::move(*m); m=std::move(x); }
  else { Cfg d; gen(d,2); std::unique_ptr<Atm> x(freshAtm(d,library(d.per,d.a),nullptr)); if(choose(2)) x->EvolveState(); if(w==3) { Atm y(std::move(*x)); *x=std::move(*m); } else *x=std::move(*m); m=std::move(x); } }
void a4body() {
  Cfg c; int kind=choose(3); gen(c,kind); if(choose(3)==2) { c.posl=0; probe("default positivity step"); } tell(c); auto l=library(c.per,c.a); int k=1+choose(3);
  if(kind==2) { double high=choose(2)?5.+15*choose(5):0; bool bar=choose(4)==3; std::unique_ptr<Atm> u(freshAtm(c,l,model2(c,high))), m(freshAtm(c,l,model2(c,high))); bool h=choose(2); int thr=1+choose(2); if(high>0) describe("atmosphere %g\n",high); if(choose(2)) { int n=1+choose(3); u->Set_EvalThreads(n); m->Set_EvalThreads(n); describe("%d threads\n",n); } if(bar) { u->Set_ProgressBar(true); m->Set_ProgressBar(true); }
    for(int i=0;i<k;i++) { if(choose(2)) relocate(m); if(i) { state(*u,c); state(*m,c); } if(choose(2)) relocate(m); if(thr==1 && choose(3)==2) { u->Set_GlashowResonance(c.inter && i%2); m->Set_GlashowResonance(c.inter && i%2); } u->EvolveState(); if(bar) { bool told; { std::ostringstream o; std::cout.rdbuf(o.rdbuf()); try { m->EvolveState(); } catch(...) { std::cout.rdbuf(nullptr); throw; } std::cout.rdbuf(nullptr); told=o.str().find("cos(th)")!=std::string::npos; } if(!told) fail("moved-differs","a moved object tells no progress any more"); probe("progress told"); } else m->EvolveState(); if(choose(2)) relocate(m); equal(snap(*u,c),snap(*m,c),0,"moved-differs","a moved object gives another result");
      if(m->GetNumE()!=u->GetNumE() || m->GetNumCos()!=u->GetNumCos() || m->Get_EvalThreads()!=u->Get_EvalThreads()) fail("moved-differs","a moved object reports other dimensions");
      if(h && c.ne>1 && c.nz>1) { probe("random production height"); for(int q=0;q<3;q++) { double a=u->EvalFlavor(1,0.5*(c.cz[0]+c.cz[1]),0.5*(c.E[0]+c.E[1]),0,true), b=m->EvalFlavor(1,0.5*(c.cz[0]+c.cz[1]),0.5*(c.E[0]+c.E[1]),0,true); if(!same(a,b)) fail("moved-differs","a moved object draws other production heights: %.17g and %.17g",a,b); } } } return; }
  std::unique_ptr<T> u(fresh(c,l)), m(fresh(c,l)); if(choose(2)) relocate(m,c,l); apply(*u,c); apply(*m,c); bool hi=c.inter && choose(3)==2;
  for(int i=0;i<k;i++) { Path p; genp(p,c.src); auto b=body(p,c); u->Set_Body(b); m->Set_Body(b); if(choose(3)==2) relocate(m,c,l); u->Set_Track(track(p)); m->Set_Track(track(p)); if(choose(3)==2) relocate(m,c,l); if(i==0||choose(2)) { state(*u,c); state(*m,c); } if(choose(3)==2) relocate(m,c,l); if(hi) { u->InitializeInteractions(); m->InitializeInteractions(); if(choose(2)) relocate(m,c,l); }
    if(i && c.multi && choose(4)==3) { c.src=false; u->Set_NeutrinoSources(false); m->Set_NeutrinoSources(false); }
    u->EvolveState(); m->EvolveState(); equal(snap(*u,c),snap(*m,c),0,"moved-differs","a moved object gives another result"); if(choose(3)==2) { relocate(m,c,l); equal(snap(*u,c),snap(*m,c),0,"moved-differs","a moved object gives another result"); }
    if(u->Get_NeutrinoSources()!=m->Get_NeutrinoSources() || u->Get_GSL_DifferentialCrossSection_Integrator_Precision()!=m->Get_GSL_DifferentialCrossSection_Integrator_Precision()) fail("moved-differs","a moved object has other settings"); }
}
void a4() { begin(false); malloc_arm(true); Mark mk=mark(); a4body(); long a=leaked(mk), b=leaked_c(mk); malloc_arm(false); if(a>0) { dump_live("leak"); fail("leak","%ld blocks are not released with their objects",a); } if(b>0) fail("leak-c","%ld blocks of the C library's heap are not released with their objects",b); nontrivial(); check_heap(); }
// ---- A05: evaluating at the same time ------------------------------------------------------------------------
struct Q5 { int o, what, f, r; double e, z, ref; };
struct W5 { std::unique_ptr<T> n[2]; std::unique_ptr<Atm> m[2]; Cfg c[2], d[2]; std::vector<Q5> q; };
double eval(const W5& w,const Q5& q) { const Cfg& c=q.what<5?w.c[q.o]:w.d[q.o]; std::vector<bool> av(c.nn); switch(q.what) {
  case 0: return w.n[q.o]->EvalFlavor(q.f,q.e,q.r); case 1: return w.n[q.o]->EvalMass(q.f,q.e,q.r); case 2: return w.n[q.o]->EvalFlavorAtNode(q.f,c.ne-1,q.r); case 3: return w.n[q.o]->EvalFlavor(q.f,q.e,q.r,2.5,av)+av[1]; case 4: return w.n[q.o]->EvalMassAtNode(q.f,0,q.r)+w.n[q.o]->GetERange()[0]*1e-12+w.n[q.o]->Get_MixingAngle(0,1);
  case 5: case 6: return w.m[q.o]->EvalFlavor(q.f,q.z,q.e,q.r); case 7: return w.m[q.o]->EvalFlavor(q.f,q.z,q.e,q.r,2.5,av); default: return w.m[q.o]->GetCosthRange()[0]+w.m[q.o]->GetERange()[1]*1e-12+w.m[q.o]->GetNumNeu(); } }
void work5(const W5* w,const std::vector<int>* s) { for(int i : *s) { const Q5& q=w->q[i]; double v=eval(*w,q); if(!same(v,q.ref)) fail("different-answer","query %d of kind %d gave %.17g, alone %.17g",i,q.what,v,q.ref); } }
void a5() {
  begin(true); std::unique_ptr<W5> wp(new W5); W5& w=*wp; int nt=1+choose(3); std::vector<int> st[4];
  { Quiet q; for(int i=0;i<2;i++) { do gen(w.c[i],1); while(w.c[i].ne<2); gen(w.d[i],2); w.c[i].steps=w.d[i].steps=1; if(w.d[i].ne<2) w.d[i].ne=2; if(i) w.c[i].nn=w.d[i].nn=7-w.c[0].nn; else w.d[i].nn=w.c[i].nn; w.c[i].pos=w.d[i].pos=false; Path p; genp(p,w.c[i].src); w.n[i].reset(fresh(w.c[i],library(w.c[i].per,0.5))); apply(*w.n[i],w.c[i]); oneleg(*w.n[i],w.c[i],p,true); w.m[i].reset(freshAtm(w.d[i],library(w.d[i].per,0.5),nullptr)); for(auto& x : w.m[i]->GetnuSQuIDS()) x.Set_NeutrinoSources(false); w.m[i]->EvolveState(); tell(w.c[i]); tell(w.d[i]); }
    int nq=2+choose(12); for(int i=0;i<nq;i++) { Q5 x; x.o=choose(2); x.what=choose(9); const Cfg& c=x.what<5?w.c[x.o]:w.d[x.o]; x.f=choose(3); x.r=c.NT==3?choose(2):0; x.e=c.E[0]+real(0,1)*(c.E[c.ne-1]-c.E[0]); x.z=c.cz[0]+real(0,1)*(c.cz[c.nz-1]-c.cz[0]); x.ref=eval(w,x); w.q.push_back(x); }
    for(int t=0;t<=nt;t++) { int k=1+choose(10); for(int i=0;i<k;i++) st[t].push_back(choose(nq)); } }
  std::vector<std::thread> th; for(int t=1;t<=nt;t++) th.emplace_back(work5,&w,&st[t]); work5(&w,&st[0]); for(auto& t : th) t.join(); nontrivial();
}
// ---- A06: promises about alignment -------------------------------------------------------------------------------
void a6() { begin(false); Cfg c; do gen(c,1); while(!c.inter); c.steps=1; tell(c); auto l=library(c.per,c.a); std::unique_ptr<T> n(fresh(c,l)); apply(*n,c); int k=1+choose(2); watch=true; 
  for(int i=0;i<k;i++) { Path p; genp(p,c.src); if(choose(4)==3) relocate(n,c,l); oneleg(*n,c,p,i==0); } if(choose(2)) { n->WriteStateHDF5("/simfs/s.h5"); T r("/simfs/s.h5"); numerics(r,c); Path p; genp(p,c.src); oneleg(r,c,p,false); probe("restored"); }
  watch=false; if(misaligned) fail("misaligned","%llu pointers were promised to the compiler as aligned and are not",(unsigned long long)misaligned); nontrivial(); }

// ---- S01: saving and restoring ---------------------------------------------------------------------------------
void unsaved(T& n,const Cfg& c) { numerics(n,c); n.Set_PositivityConstrain(c.pos); n.Set_PositivityConstrainStep(c.posl); n.Set_EvolLowPassCutoff(c.low?1e-14:0); n.Set_EvolLowPassScale(c.low?1e-15:0); n.Set_AllowConstantDensityOscillationOnlyEvolution(c.cnst); }

void config(Snap& s,T& n) { s.push_back(n.GetNumNeu()); s.push_back(n.GetNumRho()); s.push_back(n.GetNumE()); for(double e : n.GetERange()) s.push_back(e); for(unsigned i=0;i<n.GetNumNeu();i++) for(unsigned j=i+1;j<n.GetNumNeu();j++) { s.push_back(n.Get_MixingAngle(i,j)); s.push_back(n.Get_CPPhase(i,j)); } for(unsigned i=1;i<n.GetNumNeu();i++) s.push_back(n.Get_SquareMassDifference(i)); s.push_back(n.Get_NeutrinoSources()); s.push_back(n.Get_t_initial()); s.push_back(n.GetTrack()->GetInitialX()); s.push_back(n.GetTrack()->GetFinalX()); { auto bp=n.GetBody(); uint64_t h=0; for(const char* q=typeid(*bp).name();*q;q++) h=h*31+*q; s.push_back(h%1000003); } if(skipsurface && std::dynamic_pointer_cast<EarthAtm>(n.GetBody())) return; auto t=n.GetTrack(); s.push_back(n.GetBody()->density(*t)); s.push_back(n.GetBody()->ye(*t)); }
Snap whole(T& n,const Cfg& c) { Snap s; config(s,n); see(s,n,c); return s; }
Snap whole(Atm& n,const Cfg& c) { Snap s; for(double x : n.GetCosthRange()) s.push_back(x); for(double x : n.GetERange()) s.push_back(x); s.push_back(n.GetNumE()); s.push_back(n.GetNumCos()); s.push_back(n.GetNumNeu()); s.push_back(n.GetNumRho()); for(auto& q : n.GetnuSQuIDS()) config(s,q); see(s,n,c); return s; }
typedef nuSQUIDS::InteractionStructure IS;
// the cross sections an object works with, without the padding
Snap tables(const IS& t,size_t ne) { Snap s; for(auto p : t.targets) s.push_back(p); for(size_t a=0;a<t.targets.size();a++) for(size_t r=0;r<t.sigma_CC.extent(1);r++) for(size_t f=0;f<t.sigma_CC.extent(2);f++) for(size_t i=0;i<ne;i++) { s.push_back(t.sigma_CC[a][r][f][i]); s.push_back(t.sigma_NC[a][r][f][i]); for(size_t j=0;j<ne;j++) { s.push_back(t.dNdE_CC[a][r][f][i][j]); s.push_back(t.dNdE_NC[a][r][f][i][j]); } }
  for(size_t i=0;i<ne;i++) { s.push_back(t.sigma_GR[i]); for(size_t j=0;j<ne;j++) { s.push_back(t.dNdE_GR[i][j]); for(size_t r=0;r<t.dNdE_tau_all.extent(0);r++) { s.push_back(t.dNdE_tau_all[r][i][j]); s.push_back(t.dNdE_tau_lep[r][i][j]); } } } return s; }
template<class N> Snap tables(N& n,const Cfg& c) { if(!c.inter) return Snap(); n.InitializeInteractions(); return tables(*n.GetInteractionStructure(),c.ne); }
Snap tables(Atm& n,const Cfg& c) { Snap s; for(auto& q : n.GetnuSQuIDS()) { Snap t=tables(q,c); s.insert(s.end(),t.begin(),t.end()); } return s; }
struct Saved { std::string path, grp, xs; bool hasxs; Snap s; int remark; Cfg c; std::shared_ptr<nuSQUIDS::InteractionStructure> is; };
const char* GRP[]={"/","/a","/state 2","/b"};
// an object used for something else before
T* other() { Cfg d; gen(d,choose(2)); Path p; genp(p,d.src); T* x=fresh(d,library(d.per,d.a)); apply(*x,d); if(choose(2)) oneleg(*x,d,p,true); probe("restored into a used object"); return x; }
T* target(bool& ctor,bool is) { int w=choose(3); ctor=w==0; if(is || w==0) { ctor=true; return nullptr; } return w==1?new T:other(); }
T* restore(const Saved& v,T* into) { std::unique_ptr<T> x(into); if(!v.hasxs && v.is) { x.reset(); x.reset(new T(v.path,v.grp,v.is)); } else if(!x && v.xs.empty()) x.reset(new T(v.path,v.grp)); else { if(!x) x.reset(new T); x->ReadStateHDF5(v.path,v.grp,v.xs); } return x.release(); }
void s1one() {
  Cfg c; gen(c,choose(4)?1:0); tell(c); auto l=library(c.per,c.a); std::unique_ptr<T> u(fresh(c,l)), m(fresh(c,l)); apply(*u,c); apply(*m,c); int k=1+choose(3), file=0; std::vector<Saved> all; Path p; 
  for(int i=0;i<=k;i++) {
    if(i) { if(!(i==1 && choose(2))) { } u->EvolveState(); m->EvolveState(); equal(whole(*u,c),whole(*m,c),1e-9,"restored-differs","continuing from a restored state gives another result"); }
    bool next=i<k; int when=choose(3); // save right after the evolution, or with the next path set
    if(i==0) when=1;
    for(int w=0;w<2;w++) { if(w==1 && next) { genp(p,c.src); describe("path kind %d%s\n",p.kind,p.rev?" reversed":""); auto b=body(p,c); u->Set_Body(b); u->Set_Track(track(p)); m->Set_Body(b); m->Set_Track(track(p)); if(i==0 || choose(3)==2) { state(*u,c); state(*m,c); } }
      if((w==0 && i==0) || (w==1 && !next) || !(when==w || choose(3)==2)) continue;
      Saved v; v.c=c; bool add=!all.empty() && choose(2); if(!add) { file++; } v.path="/simfs/s"+std::to_string(file)+".h5"; int g=choose(4); for(auto& o : all) if(o.path==v.path && o.grp==GRP[g]) { g=-1; break; } v.grp=g<0?"/x"+std::to_string(all.size()):GRP[g];
      bool shared=add && !all.back().xs.empty() && c.inter; v.xs= shared?all.back().xs:c.inter && choose(3)==2?"xs":""; v.hasxs= c.inter && (shared || choose(3)!=2); bool savexs=v.hasxs && !shared; if(shared) { v.hasxs=all.back().hasxs; savexs=false; } m->remark=v.remark=choose(1000); 
      describe("save to %s %s%s%s%s\n",v.path.c_str(),v.grp.c_str(),v.xs.empty()?"":", cross sections in a group of their own",c.inter?(v.hasxs?"":", without cross sections"):"",add?", added":""); if(add) probe("added to a file");
      Snap before=whole(*m,c); m->WriteStateHDF5(v.path,v.grp,savexs,v.xs,!add); equal(before,whole(*m,c),0,"saving-changes","saving an object changes it"); v.s=before; if(c.inter) { m->InitializeInteractions(); v.is=m->GetInteractionStructure(); } all.push_back(v);
      if(choose(4)!=3) { bool ctor; T* t=target(ctor,!v.hasxs && v.is); if(!t && false) return; describe("restore %s\n",ctor?"with the constructor":"into an object"); m.reset(restore(v,t)); if(!ctor && m->remark!=v.remark) fail("user-part","the user's part of a state came back as %d instead of %d",m->remark,v.remark); equal(v.s,whole(*m,c),1e-12,"restored-differs","a restored state is not the one which was saved"); if(v.is) equal(tables(*v.is,c.ne),tables(*m,c),-1e-12,"restored-differs","the cross sections of a restored object are not the ones which were saved"); unsaved(*m,c); }
      if(c.inter && choose(4)==3) { c.gr=!c.gr; if(c.NT==3) c.tau=!c.tau; u->Set_GlashowResonance(c.gr); m->Set_GlashowResonance(c.gr); u->Set_TauRegeneration(c.tau); m->Set_TauRegeneration(c.tau); describe("Glashow %d, tau %d\n",c.gr,c.tau); }
    } }
  for(auto& v : all) { bool ctor; T* t=target(ctor,!v.hasxs && v.is); std::unique_ptr<T> x(restore(v,t)); equal(v.s,whole(*x,v.c),1e-12,"restored-differs","a state saved earlier is not there any more"); if(v.is) equal(tables(*v.is,v.c.ne),tables(*x,v.c),-1e-12,"restored-differs","cross sections saved earlier are not there any more"); if(!ctor && x->remark!=v.remark) fail("user-part","the user's part of a state came back as %d instead of %d",x->remark,v.remark); }
}
void s1atm() { Cfg c; gen(c,2); tell(c); describe("zenith angles\n"); if(c.nz>1 && choose(5)==4) { int q=choose(c.nz-1); c.cz[q+1]=c.cz[q]+std::pow(10.,-4-(int)choose(7)); describe("two are %g apart\n",c.cz[q+1]-c.cz[q]); probe("angles close together"); } probe("zenith angles"); auto l=library(c.per,c.a); std::unique_ptr<Atm> u(freshAtm(c,l,c.src?std::make_shared<Emit>(c.amp):nullptr)), m(freshAtm(c,l,c.src?std::make_shared<Emit>(c.amp):nullptr)); int k=1+choose(2);
  for(int i=0;i<k;i++) { for(int w=0;w<2;w++) { if(w) { u->EvolveState(); m->EvolveState(); equal(whole(*u,c),whole(*m,c),1e-9,"restored-differs","continuing from a restored state gives another result"); }
      if(choose(2)) { bool ow=choose(3)!=2; std::string path="/simfs/t"+std::to_string(ow?0:1+2*i+w)+".h5"; Snap before=whole(*m,c); m->WriteStateHDF5(path,ow); equal(before,whole(*m,c),0,"saving-changes","saving an object changes it"); int how=choose(3); describe("saved%s, restored %s\n",ow?"":" to a new file",how==0?"with the constructor":"into an object"); if(how==0) { m.reset(new Atm(path)); if(c.ne>1 && c.nz>1 && !std::isfinite(m->EvalFlavor(1,0.5*(c.cz[0]+c.cz[1]),0.5*(c.E[0]+c.E[1]),0,true))) fail("restored-differs","an evaluation of a restored ensemble is not a number"); } else if(how==1) m->ReadStateHDF5(path); else { Cfg d; gen(d,2); m.reset(freshAtm(d,library(d.per,d.a),nullptr)); if(choose(2)) m->EvolveState(); m->ReadStateHDF5(path); }
        equal(before,whole(*m,c),1e-12,"restored-differs","a restored state is not the one which was saved"); for(auto& q : m->GetnuSQuIDS()) unsaved(q,c); if(choose(3)==2) m->Set_EvalThreads(2); } }
    if(i+1<k) { state(*u,c); state(*m,c); } } }
void s1() { begin(false); if(choose(4)==3) s1atm(); else s1one(); nontrivial(); check_heap(); }

// ---- S02: failing to save or to restore -------------------------------------------------------------------------
template<class F> bool failed(bool user,bool ref,F f,const char* what) { bool threw=false; uint64_t f0=fired_total(); armed=user; seam::refuse_on=ref; faults_on(true); try { f(); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("%s failed: %.70s\n",what,e.what()); } armed=false; seam::refuse_on=false; if(threw && fired_total()==f0) fail("spurious-failure","%s failed although nothing was wrong",what); if(threw) probe((std::string(what)+" failed").c_str()); return threw; }
int handles() { return (int)H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_ALL); }
void s2() {
  begin(false); Cfg c; int kind=choose(4)==3?2:choose(4)?1:0; gen(c,kind); c.steps=1; tell(c); auto l=library(c.per,c.a); bool ref=choose(2); bool lim=choose(6)==5; std::unique_ptr<T> u, x; std::unique_ptr<Atm> ua, xa; Snap s[2], now, tab; Path p; genp(p,c.src); int h0=handles(); bool shut=true;
  if(kind==2) { describe("zenith angles\n"); ua.reset(freshAtm(c,l,c.src?std::make_shared<Emit>(c.amp):nullptr)); if(choose(2)) ua->EvolveState(); s[0]=s[1]=whole(*ua,c); } else { u.reset(fresh(c,l)); apply(*u,c); u->Set_Body(body(p,c)); u->Set_Track(track(p)); state(*u,c); if(choose(2)) u->EvolveState(); u->remark=5; s[0]=whole(*u,c); }
  // a good state is there before
  const std::string good="/simfs/good.h5", nw="/simfs/new.h5"; bool add=kind!=2 && choose(2); std::string path=add?good:nw;
  if(kind==2) ua->WriteStateHDF5(good); else { u->WriteStateHDF5(good,"/first"); if(choose(2)) u->EvolveState(); u->remark=7; s[1]=whole(*u,c); if(choose(3)==2 && !add) { disk_put(nw.c_str(),"junk",4); } }
  if(kind==2) tab=tables(*ua,c); else tab=tables(*u,c); std::string before=disk_get(good.c_str()); if(lim) disk_limit(disk_size(good.c_str())+2000+choose(40000));
  describe("save %s%s\n",add?"into the file":"to another file",lim?", nearly full disk":"");
  uint64_t i0=io(), o0=fired(F_OPEN), r0=seam::refusals; bool threw;
  if(lim) { armed=true; seam::refuse_on=ref; threw=false; faults_on(true); try { if(kind==2) ua->WriteStateHDF5(path,true); else u->WriteStateHDF5(path,"/second",true,"",!add); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("saving failed: %.70s\n",e.what()); probe("disk full"); } armed=false; seam::refuse_on=false; }
  else threw=failed(true,ref,[&]{ if(kind==2) ua->WriteStateHDF5(path,!choose(2)); else u->WriteStateHDF5(path,"/second",true,"",!add); },"saving");
  disk_heal(); disk_limit(~0ull); shut=io()==i0 && (uint64_t)seam::refusals==r0 && !lim; if(shut && handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0);
  if(kind==2) now=whole(*ua,c); else now=whole(*u,c); equal(s[1],now,0,"saving-changes","saving an object changes it");
  bool opened=fired(F_OPEN)!=o0; if(add && threw && opened && io()-i0==fired(F_OPEN)-o0 && (uint64_t)seam::refusals==r0 && !lim && disk_get(good.c_str())!=before) { if(disk_size(good.c_str())<before.size()) fail("state-destroyed","a file with a state could not be opened, and was emptied"); }
  if(!add && disk_get(good.c_str())!=before) fail("state-destroyed","saving to another file changed a file");
  // everything which was reported as saved is there, now without faults
  auto rd=[&](const std::string& f,const char* g,const Snap& want,int rem) { try { if(kind==2) { Atm q(f); now=whole(q,c); equal(tab,tables(q,c),-1e-12,"restored-differs","the cross sections of a restored object are not the ones which were saved"); } else { T q; q.ReadStateHDF5(f,g); now=whole(q,c); equal(tab,tables(q,c),-1e-12,"restored-differs","the cross sections of a restored object are not the ones which were saved"); if(q.remark!=rem) fail("user-part","the user's part of a state came back as %d instead of %d",q.remark,rem); } } catch(std::exception& e) { fail("saved-unreadable","a state which was saved cannot be restored: %.90s",e.what()); } equal(want,now,1e-12,"restored-differs","a restored state is not the one which was saved"); };
  bool stuck=handles()!=h0; // the library itself may have left the file open
  if(!threw && !stuck) rd(path,"/second",s[1],7); if(!(add && threw) && !stuck) rd(good,"/first",s[0],5);
  if(threw && !stuck) { describe("save again\n"); try { if(kind==2) ua->WriteStateHDF5("/simfs/again.h5"); else u->WriteStateHDF5("/simfs/again.h5","/second"); } catch(std::exception& e) { fail("not-repeatable","after a failure saving fails again: %.80s",e.what()); } rd("/simfs/again.h5","/second",s[1],7); }
  if(add && threw) { nontrivial(); check_heap(); return; } 
  if(stuck) { nontrivial(); return; }
  if(choose(2)) { // a file which is cut short, is something else, or does not hold the state
    std::string bad=before; int how=choose(4); const char* g="/first"; if(how==0) bad.resize(choose(bad.size())); else if(how==1) bad=std::string(1+choose(3000),'x'); else if(how==2) g="/third"; describe("restore from a file which is %s\n",how==0?"cut short":how==1?"something else":how==2?"good, another group":"not there"); probe("file cut short, missing or strange");
    if(how==3) path="/simfs/none.h5"; else { path="/simfs/bad.h5"; disk_put(path.c_str(),bad.data(),bad.size()); } bool t=false; Mark mk=mark(); bool ctor=choose(2); std::unique_ptr<T> y; std::unique_ptr<Atm> ya; if(!ctor) { if(kind==2) ya.reset(new Atm(std::move(*std::unique_ptr<Atm>(freshAtm(c,l,nullptr))))); else y.reset(other()); }
    if(kind==2 && how==2) {} else { try { if(kind==2) { if(ya) ya->ReadStateHDF5(path); else Atm q(path); } else if(y) y->ReadStateHDF5(path,g); else T q(path,g); } catch(std::exception& e) { t=true; } if(!t) fail("wrong-state","restoring from a file which holds no complete state returned normally"); if(handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0); if(ctor && leaked(mk)>0) { dump_live("leak"); fail("leak","%ld blocks are kept after failing to restore",leaked(mk)); }
      if(how!=3 && disk_get(path.c_str())!=bad) fail("state-destroyed","restoring changed the file"); if(how==3 && disk_exists(path.c_str())) fail("state-destroyed","restoring made a file");
      if(y) { y->ReadStateHDF5(good,"/first"); equal(s[0],whole(*y,c),1e-12,"restored-differs","a restored state is not the one which was saved"); } if(ya) { ya->ReadStateHDF5(good); equal(s[0],whole(*ya,c),1e-12,"restored-differs","a restored state is not the one which was saved"); } } }
  // failing to restore
  int w=choose(3); Mark mk=mark(); describe("restore %s\n",w==0?"with the constructor":"into an object"); if(kind==2) { if(w) { Cfg d=c; if(w==2) gen(d,2); xa.reset(freshAtm(d,library(d.per,d.a),nullptr)); } } else if(w==1) x.reset(new T); else if(w==2) x.reset(other()); i0=io(); r0=seam::refusals;
  threw=failed(true,ref,[&]{ if(kind==2) { if(xa) xa->ReadStateHDF5(good); else xa.reset(new Atm(good)); } else { if(x) x->ReadStateHDF5(good,"/first"); else x.reset(new T(good,"/first")); } },"restoring"); disk_heal(); shut=io()==i0 && (uint64_t)seam::refusals==r0; if(shut && handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0);
  if(threw && x) { bool t2=false; try { x->EvolveState(); } catch(std::exception&) { t2=true; } if(!t2) probe("evolved after failing to restore"); }
  if(threw) { if(kind==2) { if(!xa) { if(shut && w==0 && leaked(mk)>0) { dump_live("leak"); fail("leak","%ld blocks are kept after failing to restore",leaked(mk)); } xa.reset(new Atm(good)); } else xa->ReadStateHDF5(good); } else if(!x) { if(shut && leaked(mk)>0) { dump_live("leak"); fail("leak","%ld blocks are kept after failing to restore",leaked(mk)); } x.reset(new T(good,"/first")); } else x->ReadStateHDF5(good,"/first"); }
  equal(tab,kind==2?tables(*xa,c):tables(*x,c),-1e-12,"restored-differs","the cross sections of a restored object are not the ones which were saved"); if(kind==2) now=whole(*xa,c); else { now=whole(*x,c); if(w && x->remark!=5) fail("user-part","the user's part of a state came back as %d instead of 5",x->remark); } equal(s[0],now,1e-12,"restored-differs","a restored state is not the one which was saved");
  auto snap_of=[&]{ return kind==2?whole(*xa,c):whole(*x,c); };
  auto same_as=[&](const Snap& w) { equal(tab,kind==2?tables(*xa,c):tables(*x,c),-1e-12,"restored-differs","the cross sections of a restored object are not the ones which were saved"); Snap q=snap_of(); equal(w,q,1e-12,"restored-differs","a restored state is not the one which was saved"); };
  if(disk_get(good.c_str())!=before && !add) fail("state-destroyed","restoring changed the file");
  // the library refuses one call after the other
  if(choose(3)) { int m=4+choose(12), total=0; 
    auto rest=[&]{ if(kind==2) xa->ReadStateHDF5(good); else x->ReadStateHDF5(good,"/first"); }; int c0=seam::calls; rest(); total=seam::calls-c0; describe("restore %d times, one of %d calls refused\n",m,total); if(total<1) fail("harness","no calls"); probe("one call refused after the other");
    for(int i=0;i<m;i++) { int k=choose(total); bool t=false; seam::nth=k; try { rest(); } catch(std::exception& e) { t=true; } seam::nth=-1; event("refused",k); if(t) continue; describe("call %d was refused (%s) without failure\n",k,seam::last_refused); same_as(s[0]); }
    rest(); same_as(s[0]);
    auto save=[&]{ if(kind==2) xa->WriteStateHDF5("/simfs/sweep.h5"); else x->WriteStateHDF5("/simfs/sweep.h5","/first"); }; c0=seam::calls; save(); total=seam::calls-c0; m=2+choose(6); describe("save %d times, one of %d calls refused\n",m,total);
    for(int i=0;i<m;i++) { int k=choose(total); bool t=false; seam::nth=k; try { save(); } catch(std::exception& e) { t=true; } seam::nth=-1; event("refused",k); if(t) continue; describe("call %d was refused (%s) without failure\n",k,seam::last_refused); if(kind==2) { xa.reset(new Atm("/simfs/sweep.h5")); } else { x.reset(new T("/simfs/sweep.h5","/first")); } same_as(s[0]); } }
  nontrivial(); check_heap();
}

#include "legacy.h"
#include "refuse.h"
#include "defaults.h"
// ---- A07: equivalent ways of evolving --------------------------------------------------------------------------
int emit_r0, ini_r0; 
struct Way { Cfg c; std::vector<Path> p; std::unique_ptr<T> n; };
// carried out under faults; after a failure everything is set up again on the same object
void go(Way& w,std::shared_ptr<CrossSectionLibrary> l) { if(!w.n) w.n.reset(fresh(w.c,l)); for(int t=0;;t++) { std::vector<std::pair<std::shared_ptr<Body>,std::shared_ptr<Track>>> bt; for(auto& p : w.p) { bt.emplace_back(body(p,w.c),track(p)); if(auto e=std::dynamic_pointer_cast<Emit>(bt.back().first)) e->r0=emit_r0; }
    try { armed=t<2; faults_on(t<2); for(size_t i=0;i<bt.size();i++) { if(i==0) { FaultsOff off; apply(*w.n,w.c); } w.n->Set_Body(bt[i].first); w.n->Set_Track(bt[i].second); if(i==0) { FaultsOff off; state(*w.n,w.c); } w.n->EvolveState(); } faults_on(false); armed=false; return; } catch(std::exception& e) { faults_on(false); armed=false; if(t>=2) fail("spurious-failure","an evolution failed although nothing was wrong: %.70s",e.what()); describe("failed: %.60s\n",e.what()); probe("tried again"); } } }
void flavours(Snap& s,T& n,const Cfg& c,int r) { for(int e=0;e<c.ne;e++) for(int f=0;f<c.nn;f++) { s.push_back(n.EvalFlavorAtNode(f,e,r)); s.push_back(n.EvalMassAtNode(f,e,r)); } }
Snap flavours(T& n,const Cfg& c) { Snap s; for(unsigned r=0;r<n.GetNumRho();r++) flavours(s,n,c,r); return s; }
#include "physics.h"
#include "model.h"
const char* W7[]={"constant density mode or not","mass or interaction basis","a path in pieces","there and back","one energy or many","neutrinos and antineutrinos together or apart","zenith angles together or apart","sums of states","vacuum or density zero","positivity of a positive state","the Hamiltonian which is told"};
void a7() {
  begin(false); emit_r0=ini_r0=0; int v=choose(11); Cfg c; gen(c,v==4||v==0?(choose(2)&&v!=4):1); c.low=false; c.pos=false; c.steps=12; if(v==5) { c.NT=3; c.tau=false; } if(v==3||v==7) { c.src=false; } if(v==3||v==8) c.inter=c.gr=c.tau=false; if(v==0) { c.inter=c.gr=c.tau=c.src=false; c.multi=c.ne>1||c.NT==3; }
  if(v!=0) c.cnst=false; if(v>=9) c.inter=c.gr=c.tau=c.src=false; bool cn=v==10 && choose(2); if(v==0||v==1||v==2||v==3||v==8||v==9) c.src=false; describe("%s: ",W7[v]); tell(c); probe(W7[v]); auto l=library(c.per,c.a); const double tol=2e-4;
  int k=1+choose(3); std::vector<Path> ps; double at=0; for(int i=0;i<k;i++) { Path p; genp(p,c.src); p.rev=false; if(v==0) { p.kind=choose(3)?0:choose(3); } else if(v!=6 && !c.src) p.kind=choose(3); if(v==8) p.kind=1; if(v==2||v==3||p.kind==3) {} p.a=at; p.b=at+60*(1+choose(5)); at=choose(2)?p.b:0; if(p.kind==3 && v!=6) { p.cz=0.15+0.1*choose(6); } ps.push_back(p); describe("path kind %d from %g to %g km\n",p.kind,p.a,p.b); }
  Way a, b; a.c=b.c=c; a.p=b.p=ps; Snap sa, sb;
  switch(v) {
  case 0: b.c.cnst=!c.cnst; go(a,l); go(b,l); sa=flavours(*a.n,c); sb=flavours(*b.n,c); break;
  case 1: b.c.ba=!c.ba; go(a,l); go(b,l); sa=flavours(*a.n,c); sb=flavours(*b.n,c); break;
  case 2: { b.p.clear(); for(auto& p : ps) { int m=1+choose(3); double d=(p.b-p.a)/m; for(int i=0;i<m;i++) { Path q=p; q.a=p.a+i*d; q.b=i==m-1?p.b:q.a+d; b.p.push_back(q); } } go(a,l); go(b,l); sa=flavours(*a.n,c); sb=flavours(*b.n,c); break; }
  case 3: for(size_t i=ps.size();i-->0;) { Path q=ps[i]; q.rev=true; b.p.push_back(q); } a.p.clear(); go(b,l); { a.n.reset(fresh(c,l)); apply(*a.n,c); a.n->Set_Body(body(ps[0],c)); a.n->Set_Track(track(ps[0])); state(*a.n,c); } sa=flavours(*a.n,c); sb=flavours(*b.n,c); break;
  case 4: { if(c.ne==1 || true) { b.c.multi=true; b.c.ne=2+choose(2); } b.c.inter=a.c.inter=false; a.c.src=b.c.src=false; go(a,l); int e=choose(b.c.ne); double keep=b.c.E[e]; (void)keep; // the energies have to be ascending
      double f=a.c.E[0]/b.c.E[e]; for(int i=0;i<6;i++) b.c.E[i]*=f; b.c.E[e]=a.c.E[0]; for(int i=0;i<b.c.ne;i++) for(int q=0;q<8;q++) {} Way one; go(b,l);
      // the states of a node depend on its index: take the same
      a.n.reset(fresh(a.c,l)); apply(*a.n,a.c); for(size_t i=0;i<ps.size();i++) { a.n->Set_Body(body(ps[i],a.c)); a.n->Set_Track(track(ps[i])); if(i==0) { marray<double,1> s{(size_t)c.nn}; for(int q=0;q<c.nn;q++) s[q]=iniv(b.c,0,e,0,q); a.n->Set_initial_state(s,c.mixed?mass:flavor); } a.n->EvolveState(); }
      sa=flavours(*a.n,a.c); for(int q=0;q<c.nn;q++) { sb.push_back(b.n->EvalFlavorAtNode(q,e,0)); sb.push_back(b.n->EvalMassAtNode(q,e,0)); } for(int q=0;q<c.nn;q++) { sa.push_back(a.n->EvalFlavor(q)); sa.push_back(a.n->EvalMass(q)); sb.push_back(b.n->EvalFlavor(q,b.c.E[e],0)); sb.push_back(b.n->EvalMass(q,b.c.E[e],0)); } break; }
  case 5: { go(a,l); for(int r=0;r<2;r++) { Way o; o.c=c; o.c.NT=r+1; o.p=ps; emit_r0=r; // the state of antineutrinos has another index
        o.n.reset(fresh(o.c,l)); for(int t=0;t<1;t++) { apply(*o.n,o.c); for(size_t i=0;i<ps.size();i++) { auto bd=body(ps[i],o.c); if(auto e=std::dynamic_pointer_cast<Emit>(bd)) e->r0=r; o.n->Set_Body(bd); o.n->Set_Track(track(ps[i])); if(i==0) { marray<double,2> s{(size_t)c.ne,(size_t)c.nn}; for(int e=0;e<c.ne;e++) for(int f=0;f<c.nn;f++) s[e][f]=iniv(c,0,e,r,f); o.n->Set_initial_state(s,c.mixed?mass:flavor); } o.n->EvolveState(); } }
        sa.clear(); sb.clear(); flavours(sa,*a.n,c,r); flavours(sb,*o.n,o.c,0); if(r==0) equal(sa,sb,tol,"not-equivalent",W7[v]); } break; }
  case 6: { c.nz=2+choose(2); if(c.ne<2) c.ne=2; int hh=choose(3); double high=5.+15*choose(5); // the default atmosphere, another one, or another one after the model was taken over
      auto model=[&](bool late)->std::shared_ptr<EarthAtm> { if(!c.src && !hh) return nullptr; std::shared_ptr<EarthAtm> ea=c.src?std::make_shared<Emit>(c.amp):std::make_shared<EarthAtm>(); if(hh==1 || (hh==2 && late)) ea->SetAtmosphereHeight(high); return ea; }; if(hh) describe("atmosphere of %g km%s\n",high,hh==2?", chosen later":"");
      std::unique_ptr<Atm> m(freshAtm(c,l,model(false))); if(hh==2) { m->Set_EarthModel(model(true)); state(*m,c); } m->Set_EvalThreads(1+choose(3)); for(int t=0;;t++) { bool threw=false; armed=t<2; faults_on(t<2); faults_default(t<2); try { m->EvolveState(); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; if(t>=2) fail("spurious-failure","an evolution failed although nothing was wrong"); probe("tried again"); } armed=false; faults_default(false); if(!threw) break; state(*m,c); }
      for(int z=0;z<c.nz;z++) { std::unique_ptr<T> o(fresh(c,l)); apply(*o,c); std::shared_ptr<EarthAtm> ea=model(true); if(!ea) ea=std::make_shared<EarthAtm>(); o->Set_Body(ea); o->Set_Track(std::make_shared<EarthAtm::Track>(ea->MakeTrackWithCosine(c.cz[z]))); state(*o,c,z); o->EvolveState(); Snap x=flavours(m->GetnuSQuIDS()[z],c), y=flavours(*o,c); if(z+1==c.nz) { sa=x; sb=y; } else equal(x,y,1e-9,"not-equivalent",W7[v]); 
        for(int f=0;f<c.nn && c.osc && !c.ba;f++) { double p=m->EvalFlavor(f,c.cz[z],c.E[0],0), q=o->EvalFlavor(f,c.E[0],0); if(!(std::fabs(p-q)<=1e-6*(std::fabs(p)+std::fabs(q))+1e-12)) fail("not-equivalent","%s: at a node the value is %.17g, of the path itself %.17g",W7[v],p,q); } }
      // between the nodes: averaging over oscillations faster than infinity is no averaging, and the averaged flavours add up to the same total
      if(c.osc && !c.ba) for(int t=0;t<4;t++) { double z=c.cz[0]+real(0,1)*(c.cz[c.nz-1]-c.cz[0]), E=c.E[0]+real(0,1)*(c.E[c.ne-1]-c.E[0]), x[2]={0,0}, y[2]={0,0}, tot=0; unsigned r=choose(m->GetNumRho()); double sc=choose(5)*0.7; std::vector<bool> av(c.nn); T& o=m->GetnuSQuIDS()[choose(c.nz)]; for(int f=0;f<c.nn;f++) { double p=m->EvalFlavor(f,z,E,r), q=m->EvalFlavor(f,z,E,r,1e300,av), s=o.EvalFlavor(f,E,r), u=o.EvalFlavor(f,E,r,1e300,av); x[0]+=p; tot+=std::fabs(p)+std::fabs(s); x[1]+=s; y[0]+=m->EvalFlavor(f,z,E,r,sc,av); y[1]+=o.EvalFlavor(f,E,r,sc,av); if(!(std::fabs(p-q)<=1e-9*(std::fabs(p)+std::fabs(q)+tot))) fail("not-equivalent","averaged over nothing flavour %d between nodes is %.17g, and %.17g otherwise",f,q,p); if(!(std::fabs(u-s)<=1e-9*(std::fabs(u)+std::fabs(s)+tot))) fail("not-equivalent","averaged over nothing flavour %d of a path is %.17g, and %.17g otherwise",f,u,s); }
        for(int i=0;i<2;i++) if(!(std::fabs(x[i]-y[i])<=1e-9*tot)) fail("not-equivalent","averaging changes the total of all flavours from %.17g to %.17g",x[i],y[i]); } break; }
  case 7: { Way o; o.c=c; o.p=ps; double x=0.5*(1+choose(3)), y=choose(4); go(a,l); go(b,l); 
      auto set=[&](T& n,double f,double g) { if(c.NT!=3) { marray<double,2> s{(size_t)c.ne,(size_t)c.nn}; for(int e=0;e<c.ne;e++) for(int q=0;q<c.nn;q++) s[e][q]=f*iniv(c,0,e,0,q)+g*iniv(c,3,e,0,q); n.Set_initial_state(s,c.mixed?mass:flavor); } else { marray<double,3> s{(size_t)c.ne,2,(size_t)c.nn}; for(int e=0;e<c.ne;e++) for(int r=0;r<2;r++) for(int q=0;q<c.nn;q++) s[e][r][q]=f*iniv(c,0,e,r,q)+g*iniv(c,3,e,r,q); n.Set_initial_state(s,c.mixed?mass:flavor); } };
      Snap r[3]; for(int i=0;i<3;i++) { T& n=i==1?*b.n:*a.n; apply(n,c); for(size_t j=0;j<ps.size();j++) { n.Set_Body(body(ps[j],c)); n.Set_Track(track(ps[j])); if(j==0) set(n,i==0?1:i==1?0:x,i==0?0:i==1?1:y); n.EvolveState(); } r[i]=flavours(n,c); } sa=r[2]; for(size_t i=0;i<sa.size();i++) sb.push_back(x*r[0][i]+y*r[1][i]); break; }
  case 8: go(a,l); for(auto& p : b.p) { p.kind=0; p.rho=0; } go(b,l); sa=flavours(*a.n,c); sb=flavours(*b.n,c); break;
  case 10: { a.c.cnst=cn; a.n.reset(fresh(c,l)); T& n=*a.n; for(auto& p : ps) { p.kind=choose(4)?0:1; } // what is told as the Hamiltonian drives the evolution and is conserved
      for(int t=0;;t++) { bool threw=false; try { apply(n,a.c); for(size_t i=0;i<ps.size();i++) { n.Set_Body(body(ps[i],c)); auto tr=track(ps[i]); n.Set_Track(tr); if(i==0) state(n,c); double L=tr->GetFinalX()-tr->GetInitialX(); Snap was, to; Snap hs; for(int e=0;e<c.ne;e++) for(unsigned r=0;r<n.GetNumRho();r++) { armed=t<2; faults_on(t<2); squids::SU_vector h=n.GetHamiltonian(e,r); faults_on(false); armed=false; squids::SU_vector q=n.GetState(e,r); was.push_back(h*h); was.push_back(h*q); to.push_back(std::sqrt((h*h)*(q*q))); if(i==0) { q=q.UTransform(h,gsl_complex_rect(0.,L)); for(int f=0;f<c.nn;f++) hs.push_back(n.GetFlavorProj(f,r)*q); } }
          armed=t<2; faults_on(t<2); n.EvolveState(); faults_on(false); armed=false; size_t j=0, k=0; for(int e=0;e<c.ne;e++) for(unsigned r=0;r<n.GetNumRho();r++) { squids::SU_vector h=n.GetHamiltonian(e,r), q=n.GetState(e,r); double hh=h*h, hq=h*q; if(!(std::fabs(hh-was[j])<=1e-9*was[j]) || !(std::fabs(hq-was[j+1])<=tol*to[j/2])) fail("not-equivalent","the Hamiltonian (squared) is %.17g before, and %.17g after an evolution through the same matter; in the state %.17g and %.17g",was[j],hh,was[j+1],hq); j+=2; if(i==0) for(int f=0;f<c.nn;f++,k++) { double w=hs[k], p=n.EvalFlavorAtNode(f,e,r); sa.push_back(w); sb.push_back(p); } }
        if(i==0) { equal(sa,sb,tol,"not-equivalent",W7[v]); sa.clear(); sb.clear(); } } } catch(std::exception& e) { faults_on(false); armed=false; threw=true; sa.clear(); sb.clear(); if(t>=2) fail("spurious-failure","an evolution failed although nothing was wrong"); probe("tried again"); } if(!threw) break; } break; }
  default: b.c.pos=true; b.c.posl=(20+choose(200))*U.km; for(int i=0;i<8;i++) a.c.ini[i]=b.c.ini[i]=c.ini[i]=1+c.ini[i]; go(a,l); go(b,l); sa=flavours(*a.n,c); sb=flavours(*b.n,c); { double t0=0,t1=0; for(int e=0;e<c.ne;e++) for(unsigned r=0;r<a.n->GetNumRho();r++) { t0=t1=0; for(int f=0;f<c.nn;f++) { t0+=iniv(c,0,e,r,f); t1+=a.n->EvalFlavorAtNode(f,e,r); } if(std::fabs(t0-t1)>tol*t0) fail("not-conserved","oscillations changed the total flux from %.12g to %.12g",t0,t1); } } }
  equal(sa,sb,tol,"not-equivalent",W7[v]); nontrivial(); check_heap();
}
}
extern "C" void squids_stub_alignment(const void* p,unsigned long a) { if(watch && (uintptr_t)p%a) misaligned++; }
int main(int argc,char** argv) {
  H5open(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
  unsigned fa=bit(F_USER)|bit(F_THREAD)|bit(F_ALLOC)|bit(F_SPURIOUS);
  static const Scenario s[]={ {"A01","threads",a1,1,bit(F_SPURIOUS),true,400000000}, {"A02","failures",a2,1,fa,true,400000000}, {"A03","histories",a3,3,bit(F_USER)|bit(F_ALLOC),false,400000000}, {"A03","ensembles",a3all,1,bit(F_USER)|bit(F_ALLOC)|bit(F_THREAD)|bit(F_SPURIOUS),true,400000000}, {"A04","moves",a4,1,0,true,900000000},
    {"A05","evaluation",a5,1,0,true,400000000}, {"A06","alignment",a6,1,0,false,400000000},
    {"A07","ways",a7,1,bit(F_USER)|bit(F_ALLOC),true,400000000},
    {"S01","save",s1,1,0,true,400000000}, {"S02","failures",s2,1,bit(F_USER)|bit(F_ALLOC)|bit(F_OPEN)|bit(F_READ)|bit(F_WRITE)|bit(F_META)|bit(F_CLOSE),true,400000000},
    {"X03","defaults",x3,1,bit(F_USER)|bit(F_ALLOC)|bit(F_OPEN)|bit(F_READ)|bit(F_META)|bit(F_CLOSE)|bit(F_THREAD),true,400000000},
    {"A09","new_physics",a9,1,bit(F_USER)|bit(F_ALLOC)|bit(F_THREAD)|bit(F_SPURIOUS),true,400000000},
    {"A10","model",a10,1,bit(F_USER)|bit(F_ALLOC)|bit(F_THREAD)|bit(F_SPURIOUS),true,400000000},
    {"A08","refusals",a8,1,bit(F_ALLOC),false,400000000},
    {"S03","versions",s3,1,bit(F_USER)|bit(F_ALLOC)|bit(F_OPEN)|bit(F_READ)|bit(F_CLOSE),false,400000000} };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
