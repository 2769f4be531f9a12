// C01, C02, I01, I02: splines, interpolators, tau-decay tables and the two integrators, under controlled interleavings, arbitrary
// previous memory contents, failing integrands and refused memory.
#include <nuSQuIDS/tools.h>
#include <nuSQuIDS/taudecay.h>
#include <nuSQuIDS/AdaptiveQuad.h>
#include <gsl/gsl_errno.h>
#include <cmath>
#include <cstring>
#include <memory>
#include <thread>
#include <vector>
#include "../sim/sim.h"
using namespace sim;
using nusquids::marray;
namespace {
bool same(double a,double b) { return memcmp(&a,&b,sizeof a)==0; }
// ================= tabulated objects ==========================================================
enum { SPLINE, BICUBIC, TRICUBIC, TAU, NKIND };
enum Bad { GOOD, UNORDERED, DUPLICATE, MISMATCH, SHORT, MISMATCH2 };
const char* KN[]={"spline","two-dimensional interpolator","three-dimensional interpolator","tau-decay table"};
const char* BN[]={"valid data","unordered data","repeated abscissae","mismatched data","too few points","mismatched data"};
struct Spec { int kind; size_t n[3]; std::vector<double> x[3], v; Bad bad; int badaxis; std::vector<double> pts; };
void axis(std::vector<double>& x,size_t n) { x.clear(); double p=(double)choose(20)-10; for(size_t i=0;i<n;i++) { x.push_back(p); p+=0.125*(1+choose(16)); } }
Spec spec(bool allow_bad) {
  Spec s; s.kind=choose(4); s.bad=GOOD; s.badaxis=0; int nd= s.kind==SPLINE?1:s.kind==BICUBIC?2:s.kind==TRICUBIC?3:1; size_t tot=1; s.n[0]=s.n[1]=s.n[2]=1;
  for(int d=0;d<nd;d++) { s.n[d]=3+choose(s.kind==SPLINE||s.kind==TAU?20:s.kind==BICUBIC?7:4); tot*=s.n[d]; axis(s.x[d],s.n[d]); }
  if(s.kind==TAU) { s.n[0]-=2; s.x[0].clear(); double e=1e11*(1+choose(10)); for(size_t i=0;i<s.n[0];i++) { s.x[0].push_back(e); e*=1.1+0.1*choose(10); } }
  for(size_t i=0;i<tot;i++) s.v.push_back(i<40?real(-3,3):(double)((i*37)%19)/4.0);
  if(allow_bad && s.kind!=TAU && choose(2)) { s.bad=(Bad)(1+choose(5)); s.badaxis=choose(nd); std::vector<double>& x=s.x[s.badaxis]; 
    switch(s.bad) { case UNORDERED: { size_t k=choose((uint32_t)x.size()-1); std::swap(x[k],x[k+1]); break; } case DUPLICATE: { size_t k=choose((uint32_t)x.size()-1); x[k+1]=x[k]; break; } case MISMATCH: x.push_back(x.back()+1); break; case MISMATCH2: x.pop_back(); if(s.kind==SPLINE) x.pop_back(); break;
      default: { s.n[s.badaxis]=2; x.resize(2); break; } } }
  int np=3+choose(6); for(int i=0;i<np;i++) for(int d=0;d<3;d++) { const std::vector<double>& x=s.x[d<nd?d:0]; double lo=x.front(),hi=x.back(); uint32_t c=choose(4); s.pts.push_back(c==0?x[choose((uint32_t)x.size())]:c==1?lo-0.3:c==2?hi+0.2:real(lo,hi)); }
  return s; }
size_t npoints(const Spec& s) { return s.pts.size()/3; }
struct Obj { virtual ~Obj() {} virtual double at(const Spec& s,size_t p) const=0; virtual std::unique_ptr<Obj> copy() const=0; virtual void rebuild(const Spec& s)=0; virtual bool ready() const { return true; } };
marray<double,1> arr(const std::vector<double>& v) { marray<double,1> a({v.size()}); for(size_t i=0;i<v.size();i++) a[i]=v[i]; return a; }
struct Sp : Obj { nusquids::AkimaSpline o; void rebuild(const Spec& s) { if(s.x[0].size()!=s.v.size()) { o=nusquids::AkimaSpline(s.x[0],s.bad==SHORT?std::vector<double>(s.x[0].size(),1.0):s.v); } else o.initialize(s.x[0].data(),s.v.data(),(unsigned)s.v.size()); }
  double at(const Spec& s,size_t p) const { if(p<npoints(s)) return o(s.pts[3*p]); 
    marray<double,1> a=o.getAbscissas(), y=o.getOrdinates(), d=o.getAbscissaDerivatives(), d2; o.getAbscissaDerivatives(d2); double t=0; for(size_t i=0;i<a.size();i++) t=t*1.25+a[i]*3+y[i]*5+d[i]*7+d2[i]; return t; }
  std::unique_ptr<Obj> copy() const { return std::unique_ptr<Obj>(new Sp(*this)); } };
struct Bi : Obj { nusquids::BiCubicInterpolator o; void rebuild(const Spec& s) { marray<double,2> d{s.n[1],s.n[0]}; for(size_t j=0;j<s.n[1];j++) for(size_t i=0;i<s.n[0];i++) d[j][i]=s.v[j*s.n[0]+i]; o=nusquids::BiCubicInterpolator(std::move(d),arr(s.x[0]),arr(s.x[1])); }
  double at(const Spec& s,size_t p) const { if(p<npoints(s)) return o(s.pts[3*p],s.pts[3*p+1]); double t=0; for(double v : o.getData()) t=t*1.25+v; for(double v : o.getXCoords()) t=t*1.25+v; for(double v : o.getYCoords()) t=t*1.25+v; return t; }
  std::unique_ptr<Obj> copy() const { return std::unique_ptr<Obj>(new Bi(*this)); } };
struct Tri : Obj { nusquids::TriCubicInterpolator o; Tri(const Spec& s):o(make(s)) {}
  static nusquids::TriCubicInterpolator make(const Spec& s) { marray<double,3> d{s.n[2],s.n[1],s.n[0]}; size_t q=0; for(double& x : d) x=s.v[q++]; return nusquids::TriCubicInterpolator(std::move(d),arr(s.x[0]),arr(s.x[1]),arr(s.x[2])); }
  void rebuild(const Spec& s) { o=make(s); }
  double at(const Spec& s,size_t p) const { if(p>=npoints(s)) p=0; return o(s.pts[3*p],s.pts[3*p+1],s.pts[3*p+2]); }
  std::unique_ptr<Obj> copy() const { return std::unique_ptr<Obj>(new Tri(*this)); } };
struct Ta : Obj { nusquids::TauDecaySpectra o; bool first=true; void rebuild(const Spec& s) { if(first && s.n[0]%2) o=nusquids::TauDecaySpectra(arr(s.x[0])); else o.Init(arr(s.x[0])); first=false; }
  double at(const Spec& s,size_t p) const { if(p<npoints(s)) { double a=s.x[0].back(), b=s.pts[3*p]; return o.TauDecayToAll(a,b)+o.TauDecayToLepton(a,b)*3+o.TauDecayToHadron(a,b)+o.TauDecayToRho(a,b)*5+o.TauDecayToPion(a,b)*7+o.TauDecayToA1(a,b)+o.GetTauToLeptonBranchingRatio()+o.GetTauToHadronBranchingRatio(); }
    double t=0; unsigned n=(unsigned)s.n[0]; for(unsigned k=0;k<2;k++) for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) t=t*1.0625+o.dNdEnu_All(i,j,k)+o.dNdEnu_Lep(i,j,k)*3+o.dNdEle_All(i,j,k)*5+o.dNdEle_Lep(i,j,k)*7; return t; }
  std::unique_ptr<Obj> copy() const { return std::unique_ptr<Obj>(new Ta(*this)); } };
std::unique_ptr<Obj> build(const Spec& s) { std::unique_ptr<Obj> r; switch(s.kind) { case SPLINE: r.reset(new Sp); break; case BICUBIC: r.reset(new Bi); break; case TRICUBIC: return std::unique_ptr<Obj>(new Tri(s)); default: r.reset(new Ta); } r->rebuild(s); return r; }
std::unique_ptr<Obj> empty(int kind) { switch(kind) { case SPLINE: return std::unique_ptr<Obj>(new Sp); case BICUBIC: return std::unique_ptr<Obj>(new Bi); case TAU: return std::unique_ptr<Obj>(new Ta); default: return std::unique_ptr<Obj>(); } }
void say(const Spec& s) { describe("%s %zux%zux%zu\n",KN[s.kind],s.n[0],s.n[1],s.n[2]); }

struct Shared1 { int n; Spec s[3]; std::unique_ptr<Obj> o[3]; std::vector<double> ref[3]; };
struct Step { int what, obj; size_t p; };
void check1(const Shared1& w,int k,const Obj& o,size_t p,const char* how) { double r=o.at(w.s[k],p); if(!same(r,w.ref[k][p])) fail("different-answer","%s %s: point %zu gave %.17g, alone %.17g",KN[w.s[k].kind],how,p,r,w.ref[k][p]); }
void work1(const Shared1* w,const std::vector<Step>* st) { 
  for(const Step& s : *st) { int k=s.obj; switch(s.what) { case 0: case 1: case 2: check1(*w,k,*w->o[k],s.p,"shared between threads"); break; case 3: { std::unique_ptr<Obj> c=w->o[k]->copy(); check1(*w,k,*c,s.p,"copied"); break; } default: { std::unique_ptr<Obj> c=build(w->s[k]); check1(*w,k,*c,s.p,"built again"); } } } }
void c1() {
  faults_on(false); race_detection(true); Shared1 w; w.n=1+choose(3); heap_fill(0);
  for(int k=0;k<w.n;k++) { w.s[k]=spec(false); say(w.s[k]); }
  for(int k=0;k<w.n;k++) { std::unique_ptr<Obj> o=build(w.s[k]); for(size_t p=0;p<=npoints(w.s[k]);p++) w.ref[k].push_back(o->at(w.s[k],p)); }
  heap_fill(choose(4)); for(int k=0;k<w.n;k++) { w.o[k]=build(w.s[k]); for(size_t p=0;p<=npoints(w.s[k]);p++) if(choose(2)) check1(w,k,*w.o[k],p,"built again"); }
  int nt=1+choose(3); std::vector<Step> st[4]; for(int t=0;t<=nt;t++) { int c=1+choose(8); for(int i=0;i<c;i++) { Step s; s.what=choose(5); s.obj=choose(w.n); s.p=choose((uint32_t)w.ref[s.obj].size()); st[t].push_back(s); } describe("thread %d: %zu steps\n",t,st[t].size()); }
  heap_fill(choose(4)); std::vector<std::thread> th; for(int t=1;t<=nt;t++) th.emplace_back(work1,&w,&st[t]);
  work1(&w,&st[0]); for(auto& t : th) t.join();
  for(int k=0;k<w.n;k++) for(size_t p=0;p<w.ref[k].size();p++) check1(w,k,*w.o[k],p,"after concurrent use");
  nontrivial();
}

// ---- I02 -------------------------------------------------------------------------------------------
void i2() {
  faults_on(false); race_detection(false); Mark b0=mark(); 
  { int kind=-1; std::unique_ptr<Obj> o; bool usable=false; int steps=2+choose(6); std::unique_ptr<Spec> cur; Spec first;
    for(int i=0;i<=steps;i++) { Spec s=spec(i<steps); if(kind<0) kind=s.kind; 
      if(s.kind!=kind) { for(int t=0;t<40 && s.kind!=kind;t++) s=spec(i<steps); if(s.kind!=kind) continue; }
      if(!o && kind!=TRICUBIC && choose(2)) { o=empty(kind); }
      describe("%s of %s %zux%zux%zu\n",usable?"rebuild":"build",KN[s.kind],s.n[0],s.n[1],s.n[2]); if(s.bad) describe("  with %s\n",BN[s.bad]);
      heap_fill(choose(4)); bool threw=false; uint64_t f0=fired_total(); Mark b1=mark(); bool hadobj=(bool)o; std::unique_ptr<Obj> fresh; faults_on(i<steps);
      try { if(o) o->rebuild(s); else fresh=build(s); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; describe("  failed: %.80s\n",e.what()); }
      bool f=fired_total()!=f0;
      if(threw) { probe("build failed"); if(f) probe("build ran out of memory"); else probe("bad data reported"); if(!f && !s.bad) fail("spurious-failure","building a %s from valid data failed",KN[kind]); if(fresh) fail("harness","object in spite of failure"); if(!hadobj && leaked(b1)) { dump_live("leak"); fail("leak","a failed build of a %s left %ld blocks behind",KN[kind],leaked(b1)); } if(hadobj) usable=false; continue; }
      if(s.bad) fail("bad-data-accepted","a %s was built from %s",KN[kind],BN[s.bad]);
      if(f) fail("failure-swallowed","memory ran out while a %s was built but building returned normally",KN[kind]);
      if(fresh) o=std::move(fresh); if(usable||hadobj) probe("rebuilt"); usable=true;
      heap_fill(choose(4)); std::unique_ptr<Obj> ref=build(s);
      for(size_t p=0;p<=npoints(s);p++) { double a=o->at(s,p), b=ref->at(s,p); if(!same(a,b)) fail("trace-of-earlier-data","a rebuilt %s gives %.17g at point %zu, a fresh one %.17g",KN[kind],a,p,b); }
    } }
  check_heap(); if(leaked(b0)) { dump_live("leak"); fail("leak","%ld blocks left behind",leaked(b0)); }
  nontrivial();
}

// ================= integration ====================================================================
struct Boom { int n; int magic; };
enum { AQ, AQ_OPT, AQ_NEST, QAGS, QAGS_OWN, QAGS_NEST, MIXED, NINT };
const char* IN_[]={"adaptive","adaptive with options","adaptive, nested","GSL with a workspace","GSL","GSL, nested","adaptive inside GSL"};
struct Job { int what; double a,b,c,w; double tol; int shape; };
struct Ctx { nusquids::IntegrateWorkspace* ws; AdaptiveQuad::Options* opt; };
double shapef(const Job& j,double x) { switch(j.shape) { case 0: return j.c*x*x+1; case 1: return std::sin(j.w*x)+j.c; case 2: return std::exp(-j.w*(x-j.c)*(x-j.c)); case 3: return 1.0/(1+j.w*x*x); default: return std::sqrt(std::fabs(x-j.c)); } }
bool throwing; int boomcount;
struct F { const Job* j; std::string ballast; F(const Job& k):j(&k) { FaultsOff off; ballast.assign(40,'f'); } F(const F& o):j(o.j) { FaultsOff off; ballast=o.ballast; } double operator()(double x) const { if(ballast[39]!='f') fail("integrand-damaged","the integrand was used after its destruction"); yield(); if(throwing && fault(F_USER)) { Boom b={++boomcount,4711}; throw b; } return shapef(*j,x); } };
struct FN { const Job* j; Ctx c; double operator()(double x) const; };
double aq(const F& f,const Job& j,double b,AdaptiveQuad::Options* o) { return AdaptiveQuad::integrate(f,j.a,b,j.tol,o); }
double FN::operator()(double x) const { F f(*j); if(j->what==AQ_NEST || j->what==MIXED) return aq(f,*j,x*0.5+7,nullptr)+x; return nusquids::integrate(f,j->a,x*0.5+7,1e-4,50,50); }
struct Res { double v, u, fa, fb; bool out; };
Res perform(const Job& j,const Ctx& c) {
  Res r={0,0,0,0,false}; switch(j.what) {
    case AQ: r.v=aq(F(j),j,j.b,nullptr); break;
    case AQ_OPT: { AdaptiveQuad::Options own, *o=c.opt?c.opt:&own; r.v=aq(F(j),j,j.b,o); r.u=o->uncertainty; r.fa=o->fa; r.fb=o->fb; r.out=o->outOfTolerance; break; }
    case AQ_NEST: { FN f={&j,c}; r.v=AdaptiveQuad::integrate(f,j.a,j.b,1e-3); break; }
    case QAGS: { if(c.ws) r.v=nusquids::integrate(*c.ws,F(j),j.a,j.b,1e-6,100); else { nusquids::IntegrateWorkspace ws(100); r.v=nusquids::integrate(ws,F(j),j.a,j.b,1e-6,100); } break; }
    case QAGS_OWN: r.v=nusquids::integrate(F(j),j.a,j.b,1e-6,100,100); break;
    default: { FN f={&j,c}; if(c.ws) r.v=nusquids::integrate(*c.ws,f,j.a,j.b,1e-2,30); else r.v=nusquids::integrate(f,j.a,j.b,1e-2,30,30); } }
  return r; }
bool sameres(const Res& a,const Res& b) { return same(a.v,b.v)&&same(a.u,b.u)&&same(a.fa,b.fa)&&same(a.fb,b.fb)&&a.out==b.out; }
Job job() { Job j; j.what=choose(NINT); j.a=(double)choose(8)/4-1; j.b=j.a+(1+choose(12))/4.0; j.c=(double)choose(9)/8; j.w=1+choose(5); j.shape=choose(5); j.tol= choose(3)?1e-4:1e-8; if(j.what==AQ_NEST||j.what==MIXED||j.what==QAGS_NEST) { j.tol=1e-3; if(j.shape==4) j.shape=0; } if((j.what==AQ||j.what==AQ_OPT) && choose(5)==4) std::swap(j.a,j.b); return j; }
struct Shared2 { int n; Job j[4]; };
struct Out { Res r[8]; };
void work2(const Shared2* w,const std::vector<Step>* st,Out* out) {
  std::unique_ptr<nusquids::IntegrateWorkspace> ws; if(st->size()%2) ws.reset(new nusquids::IntegrateWorkspace(100));
  for(size_t i=0;i<st->size();i++) { Ctx c={ws.get(),nullptr}; AdaptiveQuad::Options o; c.opt=&o; out->r[i]=perform(w->j[(*st)[i].obj],c); } }
void c2() {
  faults_on(false); race_detection(true); throwing=false; gsl_set_error_handler_off(); Shared2 w; w.n=1+choose(4); for(int k=0;k<w.n;k++) { w.j[k]=job(); describe("integral %d: %s, shape %d from %g to %g\n",k,IN_[w.j[k].what],w.j[k].shape,w.j[k].a,w.j[k].b); }
  Res ref[4]; bool before=choose(2); auto refs=[&]{ for(int k=0;k<w.n;k++) { Ctx c={nullptr,nullptr}; ref[k]=perform(w.j[k],c); } }; if(before) refs(); else probe("first use in threads");
  int nt=1+choose(3); std::vector<Step> st[4]; Out out[4]; for(int t=0;t<=nt;t++) { int c=1+choose(3); for(int i=0;i<c;i++) { Step s; s.what=0; s.p=0; s.obj=choose(w.n); st[t].push_back(s); } describe("thread %d: %zu integrations\n",t,st[t].size()); }
  std::vector<std::thread> th; for(int t=1;t<=nt;t++) th.emplace_back(work2,&w,&st[t],&out[t]);
  work2(&w,&st[0],&out[0]); for(auto& t : th) t.join();
  if(!before) refs();
  for(int t=0;t<=nt;t++) for(size_t i=0;i<st[t].size();i++) { const Job& j=w.j[st[t][i].obj]; Res e=ref[st[t][i].obj]; if(!sameres(out[t].r[i],e)) fail("different-answer","%s integral gave %.17g, alone %.17g",IN_[j.what],out[t].r[i].v,e.v); }
  nontrivial();
}
void i1() {
  faults_on(false); race_detection(false); gsl_set_error_handler_off(); throwing=true; boomcount=0; malloc_arm(true); Mark b0=mark();
  { int nj=1+choose(3); Job j[3]; AdaptiveQuad::Options opt[3]; std::unique_ptr<nusquids::IntegrateWorkspace> ws; bool failed=false; 
    for(int k=0;k<nj;k++) { j[k]=job(); describe("integral %d: %s, shape %d from %g to %g\n",k,IN_[j[k].what],j[k].shape,j[k].a,j[k].b); }
    if(choose(2)) { faults_on(true); try { ws.reset(new nusquids::IntegrateWorkspace(100)); faults_on(false); } catch(std::exception&) { faults_on(false); probe("no memory for a workspace"); } if(ws && !ws->ws) fail("null-workspace","a workspace which could not be allocated was not reported"); }
    int steps=1+choose(6);
    for(int i=0;i<=steps;i++) { int k=choose(nj); const Job& q=j[k]; Ctx c={ws.get(),&opt[k]}; bool threw=false, oom=false; Boom got={0,0}; Res r; uint64_t u0=fired(F_USER), a0=fired(F_ALLOC)+fired(F_MALLOC); Mark b1=mark(); int bc=boomcount; bool other=false; char what[80]=""; 
      faults_on(i<steps);
      try { r=perform(q,c); faults_on(false); } catch(Boom& b) { faults_on(false); threw=true; got=b; } catch(std::bad_alloc&) { faults_on(false); threw=oom=true; } catch(std::exception& e) { faults_on(false); threw=other=true; snprintf(what,sizeof what,"%s",e.what()); }
      bool user=fired(F_USER)!=u0, mem=fired(F_ALLOC)+fired(F_MALLOC)!=a0;
      describe("step %d: integral %d %s\n",i,k,threw?oom?"ran out of memory":"failed":"done");
      if(user && !threw) fail("failure-swallowed","the integrand failed but the integration returned %.17g",r.v);
      if(user && !mem && (oom||other||got.magic!=4711||got.n!=bc+1)) fail("exception-changed","the integrand's exception reached the caller as another one");
      if(threw && !user && !mem) fail("spurious-failure","an integration failed although nothing was wrong: %s",what);
      if(threw) { failed=true; probe(user?"integrand failed":"memory ran out"); if(leaked(b1)) { dump_live("leak"); fail("leak","a failed integration left %ld blocks behind",leaked(b1)); } if(leaked_c(b1)) fail("leak","a failed integration left %ld C blocks behind",leaked_c(b1)); continue; }
      bool t=throwing; throwing=false; Ctx fresh={nullptr,nullptr}; Res e=perform(q,fresh); throwing=t; if(failed) probe("integration after a failure");
      if(!sameres(r,e)) fail("later-result-differs","%s integral%s gave %.17g, fresh objects give %.17g",IN_[q.what],failed?" after a failure":"",r.v,e.v);
    } }
  check_heap(); if(leaked(b0)) { dump_live("leak"); fail("leak","%ld blocks left behind",leaked(b0)); } if(leaked_c(b0)) fail("leak","%ld C blocks left behind",leaked_c(b0));
  nontrivial();
}
}
int main(int argc,char** argv) {
  static const Scenario s[]={ {"C01","tables",c1,1,0,true,6000000}, {"C02","integrals",c2,1,0,true,6000000}, {"I01","failing-integrals",i1,1,bit(F_USER)|bit(F_ALLOC)|bit(F_MALLOC),false,6000000}, {"I02","failing-builds",i2,1,bit(F_ALLOC),false,6000000} };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
