// Stand-in for the physical constants class of the SQuIDS library, which is not installed here. Same interface and values.
#ifndef SQUIDS_CONST_H
#define SQUIDS_CONST_H
#include <array>
#include <cmath>
#include <complex>
#include <map>
#include <memory>
#include <stdexcept>
#include <utility>
#include <vector>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_blas.h>
#include <gsl/gsl_complex_math.h>
namespace squids{
class Const{
public:
  double pi, sqrt2, GF, Na, sw_sq, G, alpha, e_charge;
  double TeV, GeV, MeV, keV, eV, Joule, kg, gr, meter, cm, km, fm, mm, nm, AU, parsec, kpc, Mpc, ly, sec, hour, day, year, picobarn, femtobarn, barn, atm, degree;
  double proton_mass, neutron_mass, electron_mass, muon_mass, tau_mass, tau_lifetime, pion_mass, kaon_mass;
  Const(){
    pi=M_PI; sqrt2=M_SQRT2; eV=1.0; keV=1e3; MeV=1e6; GeV=1e9; TeV=1e12;
    GF=1.16639e-23; Na=6.0221415e23; sw_sq=0.2312; G=6.67300e-11; alpha=1.0/137.0; e_charge=0.30282212;
    Joule=1.0/1.60225e-19; kg=5.62e35; gr=1e-3*kg; meter=5.06773093741e6; cm=1e-2*meter; km=1e3*meter; fm=1e-15*meter; mm=1e-3*meter; nm=1e-9*meter; AU=149597870700.0*meter;
    parsec=3.08568e16*meter; kpc=1e3*parsec; Mpc=1e6*parsec; ly=9.4605e15*meter; sec=1.523e15; hour=3600.0*sec; day=24*hour; year=365*day; picobarn=1e-36*cm*cm; femtobarn=1e-39*cm*cm; barn=1e-24*cm*cm;
    atm=101325.0; degree=M_PI/180.0;
    proton_mass=0.938272*GeV; neutron_mass=0.939565*GeV; electron_mass=0.510998910e-3*GeV; muon_mass=0.105658367*GeV; tau_mass=1.77682*GeV; tau_lifetime=2.906e-13*sec; pion_mass=0.1396*GeV; kaon_mass=0.4937*GeV;
  }
  void SetMixingAngle(unsigned int i,unsigned int j,double v){ check(i,j); th[std::make_pair(i,j)]=v; }
  double GetMixingAngle(unsigned int i,unsigned int j) const{ check(i,j); return get(th,i,j); }
  void SetPhase(unsigned int i,unsigned int j,double v){ check(i,j); ph[std::make_pair(i,j)]=v; }
  double GetPhase(unsigned int i,unsigned int j) const{ check(i,j); return get(ph,i,j); }
  void SetEnergyDifference(unsigned int i,double v){ if(i==0) throw std::runtime_error("Const::SetEnergyDifference: upper state index must be greater than zero"); if(i>=16) throw std::runtime_error("Const: state index too large"); ed[std::make_pair(i,0u)]=v; }
  double GetEnergyDifference(unsigned int i) const{ return get(ed,i,0); }
  typedef std::unique_ptr<gsl_matrix_complex,void(*)(gsl_matrix_complex*)> matrix_ptr;
  matrix_ptr GetTransformationMatrix(size_t dim) const{
    matrix_ptr U(gsl_matrix_complex_alloc(dim,dim),gsl_matrix_complex_free), R(gsl_matrix_complex_alloc(dim,dim),gsl_matrix_complex_free), D(gsl_matrix_complex_alloc(dim,dim),gsl_matrix_complex_free);
    gsl_matrix_complex_set_identity(U.get()); gsl_matrix_complex_set_identity(R.get());
    const gsl_complex one=gsl_complex_rect(1,0), zero=gsl_complex_rect(0,0);
    for(size_t j=1; j<dim; j++) for(size_t i=0; i<j; i++){
      double t=GetMixingAngle(i,j), d=GetPhase(i,j); std::complex<double> cp=std::sin(t)*std::complex<double>(std::cos(d),-std::sin(d)), cm=-std::conj(cp);
      gsl_matrix_complex_set(R.get(),i,i,gsl_complex_rect(std::cos(t),0)); gsl_matrix_complex_set(R.get(),i,j,gsl_complex_rect(cp.real(),cp.imag())); gsl_matrix_complex_set(R.get(),j,i,gsl_complex_rect(cm.real(),cm.imag())); gsl_matrix_complex_set(R.get(),j,j,gsl_complex_rect(std::cos(t),0));
      gsl_blas_zgemm(CblasNoTrans,CblasNoTrans,one,R.get(),U.get(),zero,D.get()); std::swap(U,D);
      gsl_matrix_complex_set(R.get(),i,i,one); gsl_matrix_complex_set(R.get(),i,j,zero); gsl_matrix_complex_set(R.get(),j,i,zero); gsl_matrix_complex_set(R.get(),j,j,one);
    }
    return U;
  }
private:
  typedef std::map<std::pair<unsigned int,unsigned int>,double> M; M th, ph, ed;
  static void check(unsigned int i,unsigned int j){ if(j<=i) throw std::runtime_error("Const: larger state index must be greater than smaller state index"); if(j>=16) throw std::runtime_error("Const: state index too large"); }
  static double get(const M& m,unsigned int i,unsigned int j){ auto it=m.find(std::make_pair(i,j)); return it==m.end()?0:it->second; }
};
}
#endif
