// Cross-section tables made by the harness in the documented formats, and the truth about them (used by xs.cpp and nusq.cpp).
#pragma once
namespace tabs {
using namespace sim;
using namespace nusquids;
typedef NeutrinoCrossSections X;
typedef NeutrinoDISCrossSectionsFromTables D2;
typedef NeutrinoDISCrossSectionsFromTables_V1 D1;
const double GeV=1e9;
bool same(double a,double b) { return memcmp(&a,&b,sizeof a)==0 || a==b; }
bool near(double a,double b,double tol) { return same(a,b) || std::fabs(a-b)<=tol*std::max(std::fabs(a),std::fabs(b)); }
uint64_t io() { return fired(F_OPEN)+fired(F_READ)+fired(F_WRITE)+fired(F_META)+fired(F_CLOSE); }
const X::NeutrinoFlavor FL[3]={X::electron,X::muon,X::tau}; const X::NeutrinoType NT[2]={X::neutrino,X::antineutrino}; const X::Current CU[2]={X::CC,X::NC};
const char* FN[3]={"electron","muon","tau"}; const char* TN[2]={"nu","nubar"}; const char* CN[2]={"CC","NC"};
// the truth
struct Tab { int v, nE, nz, distinct; bool equal; int bad=-1, bad2=0; double E[12], z[12], s[3][2][2][12], d[3][2][2][12][12]; };
double val(int f,int t,int c,double le,double z,double a) { return std::pow(10.,-36+0.5*f*a+0.2*t+0.1*c+0.8*le+0.3*std::sin(a+le+f))*(z<0?1:0.2+z*(1.3-z)+0.05*std::sin(3*z+a+f)); }
void gen(Tab& t,int v) { 
  t.v=v; t.nE=3+choose(6); t.nz=v==1?t.nE:3+choose(6); if(v==2 && choose(3)==0) t.nz=t.nE; t.distinct=v==1?1:choose(5); double lo=choose(3)?1:std::pow(10.,choose(3)*0.5), dec=v==1?1+choose(3):0.5*(1+choose(5)); double a=real(0,1);
  t.equal= v==1 || choose(3)==0; double l=std::log10(lo); 
  for(int i=0;i<t.nE;i++) { double le=t.equal?std::log10(lo)+dec*i/(t.nE-1):l; l+=0.2+0.1*choose(6); t.E[i]=std::pow(10.,le); }
  if(v==1) { auto r=logspace(t.E[0],t.E[t.nE-1],t.nE); for(int i=0;i<t.nE;i++) t.E[i]=r[i]; }
  for(int j=0;j<t.nz;j++) t.z[j]=j/double(t.nz-1);
  for(int f=0;f<3;f++) for(int y=0;y<2;y++) for(int c=0;c<2;c++) for(int i=0;i<t.nE;i++) { int g= t.distinct==0?0: t.distinct==2&&f==2?1 : t.distinct==3&&f==1?0 : t.distinct==4&&f==2?0 : f; double le=std::log10(t.E[i]);
    t.s[f][y][c][i]=val(g,y,c,le,-1,a); for(int j=0;j<t.nz;j++) t.d[f][y][c][i][j]= v==1? (j<i?val(g,y,c,le,t.z[j],a):0) : i==0?0: val(g,y,c,le,t.z[j],a); } }
std::string p2(const std::string& pre,int f,int y,int c,bool diff,bool common) { return pre+(common?"":std::string(FN[f])+"_")+TN[y]+(diff?"_dsde_":"_sigma_")+CN[c]+".dat"; }
void put(const std::string& p,const std::string& s) { disk_put(p.c_str(),s.data(),s.size()); }
void cut(std::string& s,int how) { size_t p=s.find('\n'); if(how==1) { for(size_t i=p+1;i<s.size();) { size_t e=s.find('\n',i), k=s.rfind(' ',e); s.erase(k,e-k); i=s.find('\n',i)+1; } size_t k=s.rfind(' ',p); s.erase(k,p-k); } else s.erase(s.rfind('\n',s.size()-2)+1); } // the last column or the last row is missing
void puttext(const Tab& t,const std::string& pre) { char b[400];
  if(t.v==1) { for(int c=0;c<2;c++) { std::string s,d; for(int i=0;i<t.nE;i++) { snprintf(b,sizeof b,"%.17g",t.E[i]); s+=b; for(int f=0;f<3;f++) for(int y=0;y<2;y++) { snprintf(b,sizeof b," %.17g",t.s[f][y][c][i]); s+=b; } s+="\n";
      for(int j=0;j<t.nE;j++) { snprintf(b,sizeof b,"%.17g %.17g",t.E[i],t.E[j]); d+=b; for(int f=0;f<3;f++) for(int y=0;y<2;y++) { snprintf(b,sizeof b," %.17g",t.d[f][y][c][i][j]); d+=b; } d+="\n"; } } if(t.bad==c) cut(s,t.bad2); if(t.bad==2+c) cut(d,t.bad2); put(pre+"sigma_"+CN[c]+".dat",s); put(pre+"dsde_"+CN[c]+".dat",d); } return; }
  for(int f=0;f<(t.distinct?3:1);f++) for(int y=0;y<2;y++) for(int c=0;c<2;c++) { std::string s,d; for(int i=0;i<t.nE;i++) { snprintf(b,sizeof b,"%.17g %.17g\n",t.E[i],t.s[f][y][c][i]); s+=b; for(int j=0;j<t.nz;j++) { snprintf(b,sizeof b,"%.17g %.17g %.17g\n",t.E[i],t.z[j],t.d[f][y][c][i][j]); d+=b; } }
    int k=(f*2+y)*2+c; if(t.bad==k) cut(s,t.bad2); if(t.bad==12+k) cut(d,t.bad2); put(p2(pre,f,y,c,false,!t.distinct),s); put(p2(pre,f,y,c,true,!t.distinct),d); } }
// the documented HDF5 layouts, written by the harness
void puth5(const Tab& t,const char* p) {
  hid_t f=H5Fcreate(p,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); if(f<0) fail("harness","no file");
  if(t.v==1) { marray<double,3> s{2,3,(size_t)t.nE}; marray<double,4> d{2,3,(size_t)t.nE,(size_t)t.nE}; addH5Attribute(f,"Emin",t.E[0]*GeV); addH5Attribute(f,"Emax",t.E[t.nE-1]*GeV);
    for(int c=0;c<2;c++) { for(int y=0;y<2;y++) for(int g=0;g<3;g++) for(int i=0;i<t.nE;i++) { s[y][g][i]=t.s[g][y][c][i]; for(int j=0;j<t.nE;j++) d[y][g][i][j]=t.d[g][y][c][i][j]; } marray<double,3> s1(s); marray<double,4> d1(d); if(t.bad==c) { size_t e[3]={2,3,(size_t)t.nE}; e[t.bad2==1?1:2]--; s1.resize(std::vector<size_t>(e,e+3)); } if(t.bad==2+c) { size_t e[4]={2,3,(size_t)t.nE,(size_t)t.nE}; e[t.bad2==1?3:2]--; d1.resize(std::vector<size_t>(e,e+4)); } writeArrayH5<double>(f,c?"s_NC":"s_CC",s1,0); writeArrayH5<double>(f,c?"dsDE_NC":"dsDE_CC",d1,0); } }
  else { marray<double,1> e{(size_t)t.nE}, z{(size_t)t.nz}, s{(size_t)t.nE}; marray<double,2> d{(size_t)t.nz,(size_t)t.nE}; for(int i=0;i<t.nE;i++) e[i]=std::log10(t.E[i]*GeV); for(int j=0;j<t.nz;j++) z[j]=t.z[j]; writeArrayH5<double>(f,"energies",e,0); writeArrayH5<double>(f,"zs",z,0);
    auto flav=[&](hid_t g,int k) { for(int y=0;y<2;y++) for(int c=0;c<2;c++) { std::string n=std::string(CN[c])+"_"+TN[y]; for(int i=0;i<t.nE;i++) { s[i]=std::log10(t.s[k][y][c][i]); for(int j=0;j<t.nz;j++) d[j][i]=i?std::log10(t.d[k][y][c][i][j]):-50; } int q=(k*2+y)*2+c; marray<double,1> s1(s); marray<double,2> d1(d); if(t.bad==q) s1.resize(std::vector<size_t>{(size_t)t.nE-1}); if(t.bad==12+q) { size_t e[2]={(size_t)t.nz,(size_t)t.nE}; e[t.bad2==1?0:1]--; d1.resize(std::vector<size_t>(e,e+2)); } writeArrayH5<double>(g,"s_"+n,s1,0); writeArrayH5<double>(g,"dsdy_"+n,d1,choose(2)?5:0); } };
    if(t.distinct==0) flav(f,0); else for(int k=0;k<3;k++) { int src= t.distinct==2&&k==2?1 : t.distinct==3&&k==1?0 : t.distinct==4&&k==2?0 : k; if(src!=k && (t.bad>=0 || choose(2))) { if(H5Lcreate_hard(f,FN[src],f,FN[k],H5P_DEFAULT,H5P_DEFAULT)<0) fail("harness","link"); continue; } hid_t g=H5Gcreate2(f,FN[k],H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); flav(g,k); H5Gclose(g); } }
  if(H5Fclose(f)<0) fail("harness","close"); }
// everything the tables can be asked
void ask(const Tab& t,const X& x,double emin,double emax,double* out,int& n) { n=0; 
  for(int f=0;f<3;f++) for(int y=0;y<2;y++) for(int c=0;c<2;c++) for(int i=0;i<t.nE;i++) { double e= i==t.nE-1?emax: i==0?emin: t.E[i]*GeV; out[n++]=x.TotalCrossSection(e,FL[f],NT[y],CU[c]); if(i) { double m=std::sqrt(t.E[i]*t.E[i-1])*GeV; out[n++]=x.TotalCrossSection(m,FL[f],NT[y],CU[c]);
    for(int j=0;j<3;j++) { double zz=j==0?0.04:j==1?0.5:0.9; out[n++]=x.SingleDifferentialCrossSection(m,emin+zz*(m-emin),FL[f],NT[y],CU[c]); } } } }
const int MAXQ=3*4*12*6;
// the loaded tables against the truth, at the tabulated points
void truth(const Tab& t,const X& x,double emin,double emax,double tol,const char* how) {
  if(!near(emin,t.E[0]*GeV,tol)||!near(emax,t.E[t.nE-1]*GeV,tol)) fail("wrong-range","energies from %g to %g were tabulated, %g to %g %s",t.E[0]*GeV,t.E[t.nE-1]*GeV,emin,emax,how);
  for(int f=0;f<3;f++) for(int y=0;y<2;y++) for(int c=0;c<2;c++) for(int i=0;i<t.nE;i++) { double e= i==t.nE-1?emax: i==0?emin: t.E[i]*GeV; double q=x.TotalCrossSection(e,FL[f],NT[y],CU[c]);
    if(!near(q,t.s[f][y][c][i],tol)) fail("wrong-total","total cross section %s %s %s at energy %d is %.17g, %.17g %s",FN[f],TN[y],CN[c],i,t.s[f][y][c][i],q,how);
    if(t.v==2 && i) for(int j=0;j<t.nz;j++) { double e2=emin+t.z[j]*(e-emin), w=t.d[f][y][c][i][j]/(e/GeV); q=x.SingleDifferentialCrossSection(e,e2,FL[f],NT[y],CU[c]); if(!near(q,w,tol*20)) fail("wrong-differential","differential cross section %s %s %s at energy %d, z %d is %.17g, %.17g %s",FN[f],TN[y],CN[c],i,j,w,q,how); }
    if(t.v==1 && i) for(int j=0;j<i && j<t.nE-2;j++) { if(i==t.nE-1) continue; double e1=e*(1+1e-12), e2=t.E[j]*GeV*(1+1e-12); q=x.SingleDifferentialCrossSection(e1,e2,FL[f],NT[y],CU[c]); if(!near(q,t.d[f][y][c][i][j],1e-6)) fail("wrong-differential","differential cross section %s %s %s at energies %d, %d is %.17g, %.17g %s",FN[f],TN[y],CN[c],i,j,t.d[f][y][c][i][j],q,how); } } }
struct Obj { std::unique_ptr<D2> a; std::unique_ptr<D1> b; const X& x() const { return a?(const X&)*a:(const X&)*b; } double lo() const { return a?a->GetEmin():b->GetEmin(); } double hi() const { return a?a->GetEmax():b->GetEmax(); } };
void load(Obj& o,int v,const std::string& p) { if(v==1) o.b.reset(new D1(p)); else o.a.reset(new D2(p)); }
}
