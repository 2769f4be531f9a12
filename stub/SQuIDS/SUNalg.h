// Stand-in for the SU(N) algebra of the SQuIDS library, which is not installed here. Same interface as far as
// nuSQuIDS uses it, plain evaluation instead of expression templates, and components that are simply the
// real and imaginary parts of the matrix: [i*N+i] the diagonal, [i*N+j] (i<j) real parts, [j*N+i] imaginary parts.
#ifndef SQUIDS_SUNALG_H
#define SQUIDS_SUNALG_H
#include <algorithm>
#include <cassert>
#include <complex>
#include <iostream>
#include <vector>
#include <SQuIDS/const.h>
#define SQUIDS_MAX_HILBERT_DIM 6
#define SQUIDS_THREAD_LOCAL thread_local
// the real macro is a promise to the optimiser (undefined behaviour if broken); here a promise is checked
extern "C" void squids_stub_alignment(const void* p,unsigned long a);
#define SQUIDS_POINTER_IS_ALIGNED(p,a) squids_stub_alignment(p,a)
namespace squids{
namespace detail{
  enum : unsigned{ NoAlias=1, EqualSizes=2, AlignedStorage=4 };
  template<unsigned flags,typename T> inline T&& guarantee(T&& t){ return static_cast<T&&>(t); }
}
class SU_vector{
  unsigned int n; bool ext; double* c; double own[SQUIDS_MAX_HILBERT_DIM*SQUIDS_MAX_HILBERT_DIM];
  typedef std::complex<double> C;
  void take(const SU_vector& o){ std::copy(o.c,o.c+o.n*o.n,c); }
  static void dims(const SU_vector& a,const SU_vector& b){ if(a.n!=b.n) throw std::runtime_error("SU_vector: Non-matching dimensions"); }
  C at(unsigned i,unsigned j) const{ return i==j?C(c[i*n+i],0):(i<j?C(c[i*n+j],c[j*n+i]):C(c[j*n+i],-c[i*n+j])); }
  void set(unsigned i,unsigned j,C v){ if(i==j) c[i*n+i]=v.real(); else{ c[i*n+j]=v.real(); c[j*n+i]=v.imag(); } } // i<=j only
  static unsigned sq(unsigned n){ if(n>SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("SU_vector: Invalid size"); return n*n; }
  void matrix(C* m) const{ for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) m[i*n+j]=at(i,j); }
public:
  SU_vector():n(0),ext(false),c(own){}
  explicit SU_vector(unsigned int d):n(d),ext(false),c(own){ std::fill(own,own+sq(d),0.); }
  SU_vector(unsigned int d,double* p):n(d),ext(true),c(p){ sq(d); }
  SU_vector(const SU_vector& o):n(o.n),ext(false),c(own){ take(o); }
  SU_vector(SU_vector&& o):n(o.n),ext(o.ext),c(o.ext?o.c:own){ if(!ext) take(o); }
  SU_vector& operator=(const SU_vector& o){ if(this==&o) return *this; if(n!=o.n){ if(ext) throw std::runtime_error("SU_vector: Non-matching dimensions in assignment to SU_vector with external storage"); n=o.n; } take(o); return *this; }
  SU_vector& operator=(SU_vector&& o){ if(this==&o) return *this; if(ext||!o.ext) return *this=static_cast<const SU_vector&>(o); n=o.n; ext=true; c=o.c; return *this; }
  static SU_vector Projector(unsigned int d,unsigned int i){ SU_vector r(d); if(i>=d) throw std::runtime_error("SU_vector::Projector: Invalid component"); r.c[i*d+i]=1; return r; }
  void SetBackingStore(double* p){ ext=true; c=p; }
  unsigned int Dim() const{ return n; }
  unsigned int Size() const{ return n*n; }
  std::vector<double> GetComponents() const{ return std::vector<double>(c,c+n*n); }
  void SetAllComponents(double v){ std::fill(c,c+n*n,v); }
  double& operator[](unsigned i){ return c[i]; }
  double operator[](unsigned i) const{ return c[i]; }
  bool operator==(const SU_vector& o) const{ return n==o.n&&std::equal(c,c+n*n,o.c); }
  bool operator!=(const SU_vector& o) const{ return !(*this==o); }
  SU_vector& operator+=(const SU_vector& o){ dims(*this,o); for(unsigned i=0;i<n*n;i++) c[i]+=o.c[i]; return *this; }
  SU_vector& operator-=(const SU_vector& o){ dims(*this,o); for(unsigned i=0;i<n*n;i++) c[i]-=o.c[i]; return *this; }
  SU_vector& operator*=(double f){ for(unsigned i=0;i<n*n;i++) c[i]*=f; return *this; }
  SU_vector& operator/=(double f){ for(unsigned i=0;i<n*n;i++) c[i]/=f; return *this; }
  friend SU_vector operator+(SU_vector a,const SU_vector& b){ SU_vector r(a); r+=b; return r; }
  friend SU_vector operator-(SU_vector a,const SU_vector& b){ SU_vector r(a); r-=b; return r; }
  friend SU_vector operator-(const SU_vector& a){ SU_vector r(a); r*=-1; return r; }
  friend SU_vector operator*(const SU_vector& a,double f){ SU_vector r(a); r*=f; return r; }
  friend SU_vector operator*(double f,const SU_vector& a){ SU_vector r(a); r*=f; return r; }
  friend double operator*(const SU_vector& a,const SU_vector& b){ // Tr(ab)
    dims(a,b); double d=0, o=0; for(unsigned i=0;i<a.n;i++) for(unsigned j=0;j<a.n;j++) (i==j?d:o)+=a.c[i*a.n+j]*b.c[i*a.n+j]; return d+2*o; }
  size_t GetEvolveBufferSize() const{ return n*(n-1); }
  void PrepareEvolve(double* b,double t) const{ for(unsigned i=0,k=0;i<n;i++) for(unsigned j=i+1;j<n;j++,k+=2){ double p=t*(c[i*n+i]-c[j*n+j]); b[k]=std::cos(p); b[k+1]=std::sin(p); } }
  void PrepareEvolve(double* b,double t,double scale,std::vector<bool>& avr) const{
    for(unsigned i=0,k=0;i<n;i++) for(unsigned j=i+1;j<n;j++,k+=2){ double p=t*(c[i*n+i]-c[j*n+j]); if(std::abs(p)>scale){ b[k]=b[k+1]=0; if(j<avr.size()) avr[j]=true; } else{ b[k]=std::cos(p); b[k+1]=std::sin(p); } } }
  void LowPassFilter(double* b,double cutoff,double scale) const{
    for(unsigned i=0,k=0;i<n;i++) for(unsigned j=i+1;j<n;j++,k+=2){ double w=std::abs(c[i*n+i]-c[j*n+j]), f=w<=cutoff-scale?1:(w>=cutoff?0:(scale>0?(cutoff-w)/scale:1)); b[k]*=f; b[k+1]*=f; } }
  SU_vector Evolve(const double* b) const{ SU_vector r(*this); for(unsigned i=0,k=0;i<n;i++) for(unsigned j=i+1;j<n;j++,k+=2) r.set(i,j,at(i,j)*C(b[k],b[k+1])); return r; }
  SU_vector Evolve(const SU_vector& H,double t) const{ dims(*this,H); double b[SQUIDS_MAX_HILBERT_DIM*SQUIDS_MAX_HILBERT_DIM]; H.PrepareEvolve(b,t); return Evolve(b); }
  void RotateToB1(const Const& p){ // the flavour projector written in the mass basis
    auto U=p.GetTransformationMatrix(n); C u[36], m[36], t[36]; matrix(m);
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){ gsl_complex z=gsl_matrix_complex_get(U.get(),i,j); u[i*n+j]=C(GSL_REAL(z),GSL_IMAG(z)); }
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){ C s=0; for(unsigned k=0;k<n;k++) s+=m[i*n+k]*u[k*n+j]; t[i*n+j]=s; }
    for(unsigned i=0;i<n;i++) for(unsigned j=i;j<n;j++){ C s=0; for(unsigned k=0;k<n;k++) s+=std::conj(u[k*n+i])*t[k*n+j]; set(i,j,s); }
  }
  SU_vector UTransform(const SU_vector& v,gsl_complex scale=gsl_complex_rect(0,1)) const{ // exp(-s v) this exp(s v), s imaginary
    dims(*this,v); if(GSL_REAL(scale)!=0) throw std::runtime_error("SU_vector stand-in: only unitary transformations");
    const double tau=GSL_IMAG(scale); C a[36], q[36]; v.matrix(a); for(unsigned i=0;i<n*n;i++) q[i]=0; for(unsigned i=0;i<n;i++) q[i*n+i]=1;
    for(int sweep=0;sweep<60;sweep++){ // complex Jacobi
      double off=0, dia=0; for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++) (i==j?dia:off)+=std::norm(a[i*n+j]);
      if(!(off>1e-30*(dia+off))) break;
      for(unsigned p=0;p<n;p++) for(unsigned r=p+1;r<n;r++){
        C g=a[p*n+r]; double m=std::abs(g); if(m==0) continue; C ph=g/m;
        double th=0.5*std::atan2(2*m,a[r*n+r].real()-a[p*n+p].real()), cs=std::cos(th), sn=std::sin(th);
        for(unsigned k=0;k<n;k++){ C x=a[k*n+p], y=a[k*n+r]; a[k*n+p]=cs*x-sn*std::conj(ph)*y; a[k*n+r]=sn*ph*x+cs*y; x=q[k*n+p]; y=q[k*n+r]; q[k*n+p]=cs*x-sn*std::conj(ph)*y; q[k*n+r]=sn*ph*x+cs*y; }
        for(unsigned k=0;k<n;k++){ C x=a[p*n+k], y=a[r*n+k]; a[p*n+k]=cs*x-sn*ph*y; a[r*n+k]=sn*std::conj(ph)*x+cs*y; }
      }
    }
    C w[36], m[36], t[36]; matrix(m); // w = exp(-i tau v)
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){ C s=0; for(unsigned k=0;k<n;k++) s+=q[i*n+k]*std::polar(1.,-tau*a[k*n+k].real())*std::conj(q[j*n+k]); w[i*n+j]=s; }
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){ C s=0; for(unsigned k=0;k<n;k++) s+=w[i*n+k]*m[k*n+j]; t[i*n+j]=s; }
    SU_vector r(n); for(unsigned i=0;i<n;i++) for(unsigned j=i;j<n;j++){ C s=0; for(unsigned k=0;k<n;k++) s+=t[i*n+k]*std::conj(w[j*n+k]); r.set(i,j,s); }
    return r;
  }
  friend SU_vector iCommutator(const SU_vector& x,const SU_vector& y){ return prod(x,y,true); }
  friend SU_vector ACommutator(const SU_vector& x,const SU_vector& y){ return prod(x,y,false); }
  friend std::ostream& operator<<(std::ostream& os,const SU_vector& v){ for(unsigned i=0;i<v.n*v.n;i++) os << v.c[i] << "  "; return os; }
private:
  static SU_vector prod(const SU_vector& x,const SU_vector& y,bool comm){
    dims(x,y); const unsigned n=x.n; C a[36], b[36]; x.matrix(a); y.matrix(b); SU_vector r(n);
    for(unsigned i=0;i<n;i++) for(unsigned j=i;j<n;j++){ C s=0; for(unsigned k=0;k<n;k++){ C p=a[i*n+k]*b[k*n+j], q=b[i*n+k]*a[k*n+j]; s+=comm?C(0,1)*(p-q):p+q; } r.set(i,j,s); }
    return r;
  }
};
template<unsigned flags=0> inline double SUTrace(const SU_vector& a,const SU_vector& b){ return a*b; }
}
#endif
