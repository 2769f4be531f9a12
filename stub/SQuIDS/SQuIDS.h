// Stand-in for the evolution engine of the SQuIDS library, which is not installed here. Same interface as far as
// nuSQuIDS uses it; the equations are the same, the integrator is a classical Runge-Kutta method with a number of
// steps that depends on the settings and the length of the path alone.
#ifndef SQUIDS_STUB_STEPS
#define SQUIDS_STUB_STEPS 3
#endif
#ifndef SQUIDS_H
#define SQUIDS_H
#include <limits>
#include <memory>
#include <gsl/gsl_odeiv2.h>
#include <SQuIDS/const.h>
#include <SQuIDS/SUNalg.h>
#include <SQuIDS/version.h>
namespace squids{
class SQuIDS{
public:
  struct SU_state{ std::unique_ptr<SU_vector[]> rho; double* scalar=nullptr; };
private:
  bool CoherentRhoTerms=false, NonCoherentRhoTerms=false, OtherRhoTerms=false, GammaScalarTerms=false, OtherScalarTerms=false, AnyNumerics=false, adaptive_step=true;
  std::vector<double> x; std::unique_ptr<double[]> system; double t=0, t_ini=0;
  double h=std::numeric_limits<double>::epsilon(), h_min=std::numeric_limits<double>::min(), h_max=std::numeric_limits<double>::max(), abs_error=1e-20, rel_error=1e-20; unsigned nsteps=1000;
  void anyNumerics(){ AnyNumerics=CoherentRhoTerms||NonCoherentRhoTerms||OtherRhoTerms||GammaScalarTerms||OtherScalarTerms; }
  size_t perNode() const{ return nsun*nsun*nrhos+nscalars; }
  void point(std::unique_ptr<SU_state[]>& s,double* p){ for(unsigned i=0;i<nx;i++){ double* q=p+i*perNode(); for(unsigned r=0;r<nrhos;r++,q+=nsun*nsun) s[i].rho[r].SetBackingStore(q); s[i].scalar=q; } }
  void Derive(double at,double* y,double* dy){
    point(estate,y); t=at; PreDerive(at);
    for(unsigned e=0;e<nx;e++){ double* d=dy+e*perNode();
      for(unsigned r=0;r<nrhos;r++,d+=nsun*nsun){
        SU_vector v(nsun,d); v.SetAllComponents(0);
        if(CoherentRhoTerms) v=iCommutator(estate[e].rho[r],HI(e,r,t));
        if(NonCoherentRhoTerms) v-=ACommutator(GammaRho(e,r,t),estate[e].rho[r]);
        if(OtherRhoTerms) v+=InteractionsRho(e,r,t);
      }
      for(unsigned s=0;s<nscalars;s++,d++){ *d=0; if(GammaScalarTerms) *d+=-estate[e].scalar[s]*GammaScalar(e,s,t); if(OtherScalarTerms) *d+=InteractionsScalar(e,s,t); }
    }
  }
  SU_vector interpolated(unsigned r,double xi) const{
    if(x.empty()||xi<x.front()||xi>x.back()) throw std::runtime_error("SQUIDS::GetExpectationValueD : x value not in the array.");
    if(x.size()==1) return state[0].rho[r];
    size_t i=std::upper_bound(x.begin(),x.end(),xi)-x.begin(); if(i>x.size()-1) i=x.size()-1; if(i) i--;
    double f2=(xi-x[i])/(x[i+1]-x[i]), f1=1-f2; return f1*state[i].rho[r]+f2*state[i+1].rho[r];
  }
protected:
  unsigned int nx=0, nsun=0, nrhos=0, nscalars=0;
  std::unique_ptr<SU_state[]> state, estate;
  bool is_init=false;
public:
  Const params;
  SQuIDS(){}
  virtual ~SQuIDS(){}
  SQuIDS(const SQuIDS&)=delete;
  SQuIDS& operator=(const SQuIDS&)=delete;
  SQuIDS(SQuIDS&& o){ steal(o); }
  SQuIDS& operator=(SQuIDS&& o){ if(this!=&o) steal(o); return *this; }
  void ini(unsigned int n,unsigned int nsu,unsigned int nrh,unsigned int nsc,double ti=0){
    is_init=false; nx=n; nsun=nsu; nrhos=nrh; nscalars=nsc; t=t_ini=ti; x.resize(nx);
    system.reset(new double[nx*perNode()]()); state.reset(new SU_state[nx]); estate.reset(new SU_state[nx]);
    for(unsigned i=0;i<nx;i++){ state[i].rho.reset(new SU_vector[nrhos]); estate[i].rho.reset(new SU_vector[nrhos]); for(unsigned r=0;r<nrhos;r++){ state[i].rho[r]=SU_vector(nsun); estate[i].rho[r]=SU_vector(nsun); } }
    point(state,system.get()); point(estate,system.get()); is_init=true;
  }
  void Set_xrange(const std::vector<double>& xs){ if(xs.size()!=nx) throw std::runtime_error("SQUIDS::Set_xrange : wrong number of points."); for(size_t i=1;i<xs.size();i++) if(xs[i]<xs[i-1]) throw std::runtime_error("SQUIDS::Set_xrange : x values must be sorted"); x=xs; }
  double Get_x(unsigned i) const{ return x.at(i); }
  void Evolve(double dt){
    if(!is_init) throw std::runtime_error("SQUIDS::Evolve : not initialized");
    if(!AnyNumerics){ t+=dt; PreDerive(t); return; }
    if(dt!=0&&(h>0)!=(dt>0)) throw std::runtime_error("SQUIDS::Evolve: Error in GSL ODE solver (integration limits and/or step direction not consistent)");
    const size_t N=nx*perNode(); std::vector<double> y(N), k1(N), k2(N), k3(N), k4(N);
    unsigned n=adaptive_step?SQUIDS_STUB_STEPS:std::min(nsteps,96u); if(h_max<std::numeric_limits<double>::max()&&std::abs(dt)/h_max>n) n=std::min(4.*n,std::ceil(std::abs(dt)/h_max));
    double* s=system.get(); const double t0=t, st=dt/n;
    try{
      for(unsigned k=0;k<n;k++){
        const double a=t0+k*st;
        Derive(a,s,k1.data()); for(size_t i=0;i<N;i++) y[i]=s[i]+0.5*st*k1[i];
        Derive(a+0.5*st,y.data(),k2.data()); for(size_t i=0;i<N;i++) y[i]=s[i]+0.5*st*k2[i];
        Derive(a+0.5*st,y.data(),k3.data()); for(size_t i=0;i<N;i++) y[i]=s[i]+st*k3[i];
        const double e=k+1==n?t0+dt:a+st; Derive(e,y.data(),k4.data());
        for(size_t i=0;i<N;i++) s[i]+=st/6*(k1[i]+2*k2[i]+2*k3[i]+k4[i]); t=e;
      }
    }catch(...){ point(estate,s); throw; }
    point(estate,s);
  }
  virtual void PreDerive(double){}
  virtual SU_vector H0(double,unsigned int) const{ return SU_vector(nsun); }
  virtual SU_vector HI(unsigned int,unsigned int,double) const{ return SU_vector(nsun); }
  virtual SU_vector GammaRho(unsigned int,unsigned int,double) const{ return SU_vector(nsun); }
  virtual SU_vector InteractionsRho(unsigned int,unsigned int,double) const{ return SU_vector(nsun); }
  virtual double GammaScalar(unsigned int,unsigned int,double) const{ return 0; }
  virtual double InteractionsScalar(unsigned int,unsigned int,double) const{ return 0; }
  SU_vector GetIntermediateState(unsigned int r,double xi) const{ return interpolated(r,xi); }
  double GetExpectationValue(const SU_vector& op,unsigned int r,unsigned int i) const{ return state[i].rho[r]*op.Evolve(H0(x[i],r),t-t_ini); }
  double GetExpectationValue(const SU_vector& op,unsigned int r,unsigned int i,double scale,std::vector<bool>& avr) const{ double b[36]; H0(x[i],r).PrepareEvolve(b,t-t_ini,scale,avr); return state[i].rho[r]*op.Evolve(b); }
  double GetExpectationValueD(const SU_vector& op,unsigned int r,double xi) const{ return interpolated(r,xi)*op.Evolve(H0(xi,r),t-t_ini); }
  double GetExpectationValueD(const SU_vector& op,unsigned int r,double xi,double scale,std::vector<bool>& avr) const{ double b[36]; H0(xi,r).PrepareEvolve(b,t-t_ini,scale,avr); return interpolated(r,xi)*op.Evolve(b); }
  double Get_t() const{ return t; }
  double Get_t_initial() const{ return t_ini; }
  void Set_t(double v){ t=v; }
  double Get_h() const{ return h; }
  void Set_h(double v){ h=v; }
  void Set_h_max(double v){ h_max=v; }
  double Get_h_max() const{ return h_max; }
  void Set_h_min(double v){ h_min=v; }
  void Set_abs_error(double v){ abs_error=v; }
  void Set_rel_error(double v){ rel_error=v; }
  double Get_abs_error() const{ return abs_error; }
  double Get_rel_error() const{ return rel_error; }
  void Set_AdaptiveStep(bool o){ adaptive_step=o; }
  void Set_NumSteps(unsigned int n){ nsteps=n; }
  void Set_GSL_step(const gsl_odeiv2_step_type*){}
  void Set_AnyNumerics(bool o){ AnyNumerics=o; }
  void Set_CoherentRhoTerms(bool o){ CoherentRhoTerms=o; anyNumerics(); }
  void Set_NonCoherentRhoTerms(bool o){ NonCoherentRhoTerms=o; anyNumerics(); }
  void Set_OtherRhoTerms(bool o){ OtherRhoTerms=o; anyNumerics(); }
  void Set_GammaScalarTerms(bool o){ GammaScalarTerms=o; anyNumerics(); }
  void Set_OtherScalarTerms(bool o){ OtherScalarTerms=o; anyNumerics(); }
private:
  void steal(SQuIDS& o){
    CoherentRhoTerms=o.CoherentRhoTerms; NonCoherentRhoTerms=o.NonCoherentRhoTerms; OtherRhoTerms=o.OtherRhoTerms; GammaScalarTerms=o.GammaScalarTerms; OtherScalarTerms=o.OtherScalarTerms; AnyNumerics=o.AnyNumerics; adaptive_step=o.adaptive_step;
    x=std::move(o.x); system=std::move(o.system); t=o.t; t_ini=o.t_ini; h=o.h; h_min=o.h_min; h_max=o.h_max; abs_error=o.abs_error; rel_error=o.rel_error; nsteps=o.nsteps;
    nx=o.nx; nsun=o.nsun; nrhos=o.nrhos; nscalars=o.nscalars; state=std::move(o.state); estate=std::move(o.estate); is_init=o.is_init; params=o.params;
    o.is_init=false;
  }
};
}
#endif
