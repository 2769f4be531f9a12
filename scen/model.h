// ---- A10: evolution against a reference model (included by nusq.cpp) ---------------------------------------------------
// The model: density matrices in the flavour basis, dr/dx = -i[H,r] - {G,r}/2 + S, with H, G and S written down from the mixing parameters, the matter of the body and the
// cross sections and tau spectra at the energy nodes; integrated in steps of its own. The object under test gets there through failures, moves, saves and threads.
typedef std::complex<double> C1;
struct Model { Cfg c; std::shared_ptr<CrossSectionLibrary> l; std::shared_ptr<TauDecaySpectra> td; int N, ne, nr; std::vector<C1> U[2], rho; std::vector<double> sc[2], sn[2], dc[2], dn[2], sg, dg, ta[2], tl[2]; std::vector<NeutrinoCrossSections::NeutrinoType> type; int nt=0;
  size_t at(int e,int r,int i,int j) const { return ((e*nr+r)*N+i)*N+j; }
  size_t i2(int r,int f,int e) const { return (r*3+f)*ne+e; }
  size_t i3(int r,int f,int e,int d) const { return ((r*3+f)*ne+e)*ne+d; }
  double dE(int e) const { return c.E[e]-c.E[e-1]; }
  double tot(const NeutrinoCrossSections& x,int e,int f,NeutrinoCrossSections::NeutrinoType t,NeutrinoCrossSections::Current k) const { typedef NeutrinoCrossSections::NeutrinoFlavor F; return e?x.AverageTotalCrossSection(c.E[e-1],c.E[e],F(f),t,k):x.TotalCrossSection(c.E[0],F(f),t,k); }
  double dif(const NeutrinoCrossSections& x,int e,int d,int f,NeutrinoCrossSections::NeutrinoType t,NeutrinoCrossSections::Current k) const { typedef NeutrinoCrossSections::NeutrinoFlavor F; return d?x.AverageSingleDifferentialCrossSection(c.E[e],c.E[d-1],c.E[d],F(f),t,k):x.SingleDifferentialCrossSection(c.E[e],c.E[0],F(f),t,k); }
  Model(const Cfg& c,std::shared_ptr<CrossSectionLibrary> l): c(c), l(l) { N=c.nn; ne=c.multi?c.ne:1; nr=c.NT==3?2:1; rho.assign(ne*nr*N*N,0); const double cm2=U0.cm*U0.cm; for(int r=0;r<nr;r++) type.push_back(c.NT==2 || r==1?NeutrinoCrossSections::antineutrino:NeutrinoCrossSections::neutrino);
    for(int r=0;r<nr;r++) { std::vector<C1>& u=U[r]; u.assign(N*N,0); for(int i=0;i<N;i++) u[i*N+i]=1; for(int j=1;j<N;j++) for(int i=0;i<j;i++) { double t=0, d=0; if(i==0 && j==1) t=0.58+0.1*c.th; if(i==0 && j==2) { t=0.15; d=c.dcp; } if(i==0 && j==1) d=c.ex[1]; if(i==1 && j==2) d=c.ex[2]; if(i==1 && j==2) t=0.8+0.1*c.th; if(j==3) { t=i==0?0.1:i==1?0.2+c.th:c.ex[0]; d=i==1?c.ex[3]:0; } if(anti(r)) d=-d;
      C1 p=std::polar(std::sin(t),-d); double k=std::cos(t); for(int m=0;m<N;m++) { C1 a=u[i*N+m], b=u[j*N+m]; u[i*N+m]=k*a+p*b; u[j*N+m]=-std::conj(p)*a+k*b; } } }
    if(!c.inter) return; std::vector<std::shared_ptr<const NeutrinoCrossSections>> t; if(c.per) { t.push_back(l->crossSectionForTarget(proton)); t.push_back(l->crossSectionForTarget(neutron)); } else t.push_back(l->crossSectionForTarget(isoscalar_nucleon)); nt=t.size(); using X=NeutrinoCrossSections;
    for(int k=0;k<nt;k++) { sc[k].resize(nr*3*ne); sn[k]=sc[k]; dc[k].resize(nr*3*ne*ne); dn[k]=dc[k]; for(int r=0;r<nr;r++) for(int f=0;f<3;f++) for(int e=0;e<ne;e++) { double a=tot(*t[k],e,f,type[r],X::CC), b=tot(*t[k],e,f,type[r],X::NC); sc[k][i2(r,f,e)]=a*cm2; sn[k][i2(r,f,e)]=b*cm2; for(int d=0;d<e;d++) { dc[k][i3(r,f,e,d)]=dif(*t[k],e,d,f,type[r],X::CC)/a/1e9; dn[k][i3(r,f,e,d)]=dif(*t[k],e,d,f,type[r],X::NC)/b/1e9; } } }
    if(c.gr) { auto g=l->crossSectionForTarget(nusquids::electron); sg.resize(ne); dg.resize(ne*ne); for(int e=0;e<ne;e++) { double a=tot(*g,e,0,X::antineutrino,X::GR); sg[e]=a*cm2; for(int d=0;d<e;d++) dg[e*ne+d]=dif(*g,e,d,0,X::antineutrino,X::GR)/a/1e9; } }
    if(c.tau) { td=std::make_shared<TauDecaySpectra>(erange(c)); for(int r=0;r<2;r++) { ta[r].resize(ne*ne); tl[r]=ta[r]; for(int e=0;e<ne;e++) for(int d=0;d<e;d++) { ta[r][e*ne+d]=td->dNdEnu_All(e,d,r)/1e9; tl[r][e*ne+d]=td->dNdEnu_Lep(e,d,r)/1e9; } } } }
  static const squids::Const& u0() { static const squids::Const k; return k; }
  const squids::Const& U0=u0();
  bool anti(int r) const { return c.NT==2 || r==1; }
  void start(int z=0) { for(int e=0;e<ne;e++) for(int r=0;r<nr;r++) for(int i=0;i<N;i++) for(int j=0;j<N;j++) { C1 s=0; for(int m=0;m<N;m++) { double v=iniv(c,z,e,r,m); if(c.mixed) s+=U[r][i*N+m]*v*std::conj(U[r][j*N+m]); else if(m==i && i==j) s+=v; } rho[at(e,r,i,j)]=s; } }
  // the derivative at a point with this density and electron fraction
  void derive(const std::vector<C1>& q,std::vector<C1>& o,double density,double ye,const marray<double,3>* flux) const {
    std::vector<double> G(ne*nr*N,0), F(ne*nr*N,0); auto k=[&](int e,int r,int f) { return (e*nr+r)*N+f; }; auto fl=[&](int e,int r,int f) { return q[at(e,r,f,f)].real(); };
    if(c.inter) { double rho=density*U0.gr/(U0.cm*U0.cm*U0.cm), n[2], w[2]; // the numbers of targets: neutral matter with this fraction of protons
      if(c.per) { double per=rho/(ye*(U0.proton_mass+U0.electron_mass)+(1-ye)*U0.neutron_mass); n[0]=ye*per; n[1]=(1-ye)*per; w[0]=ye; w[1]=1-ye; } else { n[0]=rho/(0.5*(U0.proton_mass+U0.electron_mass+U0.neutron_mass)); w[0]=1; }
      std::vector<double> cc(nr*3*ne,0), nc(nr*3*ne,0); for(int t=0;t<nt;t++) for(size_t i=0;i<cc.size();i++) { cc[i]+=n[t]*sc[t][i]; nc[i]+=n[t]*sn[t][i]; }
      for(int e=0;e<ne;e++) for(int r=0;r<nr;r++) for(int f=0;f<3;f++) { G[k(e,r,f)]=cc[i2(r,f,e)]+nc[i2(r,f,e)]; for(int h=e+1;h<ne;h++) for(int t=0;t<nt;t++) F[k(e,r,f)]+=fl(h,r,f)*nc[i2(r,f,h)]*dE(h)*w[t]*dn[t][i3(r,f,h,e)]; }
      if(c.gr) for(int r=0;r<nr;r++) if(anti(r)) { double el=c.per?n[0]:n[0]*ye; for(int e=0;e<ne;e++) { G[k(e,r,0)]+=el*sg[e]; double s=0; for(int h=e+1;h<ne;h++) s+=fl(h,r,0)*el*sg[h]*dE(h)*dg[h*ne+e]; for(int f=0;f<3;f++) F[k(e,r,f)]+=s; } }
      if(c.tau) { std::vector<double> m[2]; for(int r=0;r<2;r++) m[r].assign(ne,0); for(int h=1;h<ne;h++) { if(fl(h,0,2)<=0 && fl(h,1,2)<=0) continue; for(int r=0;r<2;r++) for(int e=1;e<h;e++) for(int t=0;t<nt;t++) m[r][e]+=fl(h,r,2)*cc[i2(r,2,h)]*dE(h)*w[t]*dc[t][i3(r,2,h,e)]*dE(e); }
        for(int r=0;r<2;r++) for(int h=1;h<ne;h++) for(int e=0;e<h;e++) { F[k(e,r,2)]+=m[r][h]*ta[r][h*ne+e]; for(int f=0;f<2;f++) F[k(e,1-r,f)]+=m[r][h]*tl[r][h*ne+e]; } } }
    if(flux) for(int e=0;e<ne;e++) for(int r=0;r<nr;r++) for(int f=0;f<N;f++) F[k(e,r,f)]+=(*flux)[e][r][f];
    double V=std::sqrt(2.)*U0.GF*U0.Na/(U0.cm*U0.cm*U0.cm)*density, dm[4]={0,7.4e-5,c.dm,0.1}; C1 H[16], I(0,1);
    for(int e=0;e<ne;e++) for(int r=0;r<nr;r++) { for(int i=0;i<N;i++) for(int j=0;j<N;j++) { C1 s=0; if(c.osc) for(int m=0;m<N;m++) s+=U[r][i*N+m]*(dm[m]/(2*c.E[e]))*std::conj(U[r][j*N+m]); if(i==j && i<3) s+=(anti(r)?-V:V)*((i==0?ye:0)-0.5*(1-ye)); H[i*N+j]=s; }
      const C1* x=&q[at(e,r,0,0)]; C1* y=&o[at(e,r,0,0)]; for(int i=0;i<N;i++) for(int j=0;j<N;j++) { C1 s=0; for(int m=0;m<N;m++) s+=H[i*N+m]*x[m*N+j]-x[i*N+m]*H[m*N+j]; y[i*N+j]=-I*s-0.5*(G[k(e,r,i)]+G[k(e,r,j)])*x[i*N+j]; if(i==j) y[i*N+j]+=F[k(e,r,i)]; } } }
  void path(std::shared_ptr<Body> b,std::shared_ptr<Track> t,int steps) { double x0=t->GetInitialX(), h=(t->GetFinalX()-x0)/steps; size_t n=rho.size(); std::vector<C1> k[4], q(n); for(auto& v : k) v.resize(n); nuSQUIDS none; 
    auto f=[&](double x,const std::vector<C1>& p,std::vector<C1>& o) { t->SetX(x); marray<double,3> fl; if(c.src) { fl.resize(std::vector<size_t>{(size_t)ne,(size_t)nr,(size_t)N}); std::fill(fl.begin(),fl.end(),0.); b->injected_neutrino_flux(fl,*t,none); } derive(p,o,b->density(*t),b->ye(*t),c.src?&fl:nullptr); };
    for(int s=0;s<steps;s++) { double x=x0+s*h; f(x,rho,k[0]); for(size_t i=0;i<n;i++) q[i]=rho[i]+0.5*h*k[0][i]; f(x+0.5*h,q,k[1]); for(size_t i=0;i<n;i++) q[i]=rho[i]+0.5*h*k[1][i]; f(x+0.5*h,q,k[2]); for(size_t i=0;i<n;i++) q[i]=rho[i]+h*k[2][i]; f(s+1==steps?t->GetFinalX():x+h,q,k[3]); for(size_t i=0;i<n;i++) rho[i]+=h/6*(k[0][i]+2.*k[1][i]+2.*k[2][i]+k[3][i]); } }
  // the state of a node in the mass basis, with the phases of its evolution over this time undone if need be
  std::vector<C1> undone(int e,int r,double t,bool ba) const { static const double d0[4]={0,7.4e-5,0,0.1}; std::vector<C1> m(N*N); for(int a=0;a<N;a++) for(int b=0;b<N;b++) { C1 v=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++) v+=std::conj(U[r][i*N+a])*rho[at(e,r,i,j)]*U[r][j*N+b]; double d=(a==2?c.dm:d0[a])-(b==2?c.dm:d0[b]); m[a*N+b]=c.osc && !ba?v*std::polar(1.,d*t/(2*c.E[e])):v; } return m; }
  // what the documented interpolation makes of it at an energy between two nodes
  double between(double E,int r,int f,bool flavour,double t,double t0,bool ba,double scale) const { static const double d0[4]={0,7.4e-5,0,0.1}; int e=0; while(e+2<ne && c.E[e+1]<E) e++; int h=std::min(e+1,ne-1); double w=h==e?0:(E-c.E[e])/(c.E[h]-c.E[e]); auto x=undone(e,r,t0,ba), y=undone(h,r,t0,ba); C1 s=0; for(int a=0;a<N;a++) for(int b=0;b<N;b++) { C1 v=(1-w)*x[a*N+b]+w*y[a*N+b]; if(c.osc && !ba) { double d=(a==2?c.dm:d0[a])-(b==2?c.dm:d0[b]), p=d*t/(2*E); v*=std::fabs(p)>scale?C1(0):std::polar(1.,-p); } s+=flavour?U[r][f*N+a]*v*std::conj(U[r][f*N+b]):a==f && b==f?v:C1(0); } return s.real(); }
  Snap told() const { Snap s; for(int r=0;r<nr;r++) for(int e=0;e<ne;e++) for(int f=0;f<N;f++) { s.push_back(rho[at(e,r,f,f)].real()); C1 m=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++) m+=std::conj(U[r][i*N+f])*rho[at(e,r,i,j)]*U[r][j*N+f]; s.push_back(m.real()); } return s; }
};
// twice the same shape for protons and neutrons: how many of the secondaries come from which is a convention
std::shared_ptr<CrossSectionLibrary> library3(bool per,double a,double s) { auto l=std::make_shared<CrossSectionLibrary>(); if(per) { l->addTarget(proton,Mock(s,0.3,a)); l->addTarget(neutron,Mock(0.7*s,0.4,a)); } else l->addTarget(isoscalar_nucleon,Mock(s,0.35,a)); l->addTarget(nusquids::electron,Mock(0.5*s,0.2,0.5)); return l; }
struct EmitC : ConstantDensity { double amp; EmitC(double d,double y,double a): ConstantDensity(d,y), amp(a) {}
  static std::string GetName() { return "EmitC"; }
  void Serialize(hid_t g) const override { ConstantDensity::Serialize(g); H5Adelete(g,"name"); addH5Attribute<std::string>(g,"name",GetName()); addH5Attribute(g,"amp",amp); }
  static std::shared_ptr<EmitC> Deserialize(hid_t g) { auto b=ConstantDensity::Deserialize(g); double a=0; readH5Attribute(g,"amp",a); ConstantDensity::Track t(0); return std::make_shared<EmitC>(b->density(t),b->ye(t),a); }
  void injected_neutrino_flux(marray<double,3>& f,const GenericTrack& t,const nuSQUIDS& n) override { Emit(amp).injected_neutrino_flux(f,t,n); } };
nusquids::detail::registerBody regEmitC("EmitC",EmitC::Deserialize);
void a10() {
  begin(false); int kind=choose(8)==7?2:choose(5)?1:0; Cfg c; gen(c,kind); if(kind==1 && choose(2)) { for(int i=0;i<6 && (!c.inter || c.ne<3);i++) { uint32_t t=choose(4); gen(c,1); if(t) c.NT=3; } } if(c.inter) { c.tau=c.NT==3 && choose(4); c.osc=choose(3)>0; } c.low=c.pos=false; c.steps=24; c.dm*=1+20*choose(4); describe("%s",kind==2?"zenith angles, ":""); double tol=5e-4; if(kind==2) { c.nz=std::min(c.nz,3); c.ne=std::max(2,std::min(c.ne,3)); } tell(c); // a path ends at the surface up to rounding, where the density jumps: inside or outside
  if(choose(3)==0) c.only=c.NT==3 && choose(2)?choose(2):2+choose(c.nn); if(choose(3)==0) c.scale=choose(2)?1e-18:1e9; for(int i=c.nn==4?0:1;i<(c.nn==4?4:3);i++) c.ex[i]=choose(2)?0.3*choose(4):0; auto more=[&](T& n) { if(c.nn==4) { n.Set_MixingAngle(2,3,c.ex[0]); n.Set_CPPhase(1,3,c.ex[3]); } n.Set_CPPhase(0,1,c.ex[1]); n.Set_CPPhase(1,2,c.ex[2]); }; describe("only %d, times %g\n",c.only,c.scale); std::vector<Path> ps; double at=0, depth=0, L=0; int legs=kind==2?1:1+choose(3); for(int i=0;i<legs;i++) { Path p; genp(p,false); p.rev=false; p.kind=choose(10)?choose(3):3; if(c.src) p.kind=0; p.rho*=1+4*choose(4); static const double yes[]={0.45,0.5,0.3,0.7,0,1}; p.ye=yes[choose(6)]; p.a=at; p.b=at+60*(1+choose(5)); at=choose(2)?p.b:0; if(p.kind==3) { tol=1.5e-2; p.cz=-0.9+0.1*choose(8); c.steps=80; if(c.dm>0.01) c.dm=2.5e-3; } ps.push_back(p); if(kind!=2) describe("path kind %d from %g to %g km, density %g, fraction %g, angle %g\n",p.kind,p.a,p.b,p.rho,p.ye,p.cz); }
  if(kind==2) { for(int i=0;i<c.nz;i++) c.cz[i]=-0.9+0.2*i+0.01*choose(10); c.multi=true; tol=1.5e-2; c.steps=24; if(c.dm>0.01) c.dm=2.5e-3; }
  auto make=[&](const Path& p)->std::shared_ptr<Body> { if(p.kind==2) return std::make_shared<VariableDensity>(std::vector<double>{0,1000*U.km,1500*U.km,2500*U.km},std::vector<double>{p.rho,0.7*p.rho,0.6*p.rho,0.8*p.rho},std::vector<double>{0.5,0.5,0.49,0.47}); if(c.src) return std::make_shared<EmitC>(p.rho,p.ye,c.amp); return body(p,c); };
  auto column=[&](std::shared_ptr<Body> b,std::shared_ptr<Track> t) { for(int i=0;i<20;i++) { t->SetX(t->GetInitialX()+(i+0.5)/20*(t->GetFinalX()-t->GetInitialX())); depth+=b->density(*t)*(t->GetFinalX()-t->GetInitialX())/20/U.cm*6e23; } L+=t->GetFinalX()-t->GetInitialX(); };
  auto ea=[&]()->std::shared_ptr<EarthAtm> { return c.src?std::make_shared<Emit>(c.amp):std::make_shared<EarthAtm>(); };
  if(kind==2) { auto e=ea(); for(int z=0;z<1;z++) column(e,std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(c.cz[z]))); } else for(auto& p : ps) column(make(p),track(p)); c.amp=c.scale*0.1*(1+choose(3))/L; double s=(0.05+0.1*choose(4))/(depth>0?depth:1e30); double mean=std::pow(c.E[0]/1e12,0.35); auto l=library3(c.per,c.a,s/mean);
  std::vector<Snap> want, coarse; std::vector<Model> models; static const double scales[]={1e30,0.003,0.05,0.7}; double scale=scales[choose(4)]; double we=0.2*choose(6), wz=0.2*choose(6); bool ba=c.ba; // the model with the steps of the object and with half of them: where densities jump, what either makes of it tells how exact the other can be
  auto near=[&](const Snap& a,const Snap& q,const Snap& b) { if(a.size()!=b.size()) fail("model-differs","%zu numbers and %zu",a.size(),b.size()); double m=0; for(double x : a) m=std::max(m,std::fabs(x)); for(size_t i=0;i<a.size();i++) if(!(std::fabs(a[i]-b[i])<=tol*m+6*std::fabs(a[i]-q[i]))) fail("model-differs","number %zu of %zu of the flavour and mass contents is %.12g, and %.12g by the model (%.2g)",i,a.size(),b[i],a[i],a[i]-q[i]); };
  if(kind==2) { for(int z=0;z<c.nz;z++) { auto e=ea(); Model m(c,l); m.start(z); m.path(e,std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(c.cz[z])),160); want.push_back(m.told()); models.push_back(m); m.start(z); m.path(e,std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(c.cz[z])),c.steps); coarse.push_back(m.told()); } }
  else { Model m(c,l); m.start(); for(auto& p : ps) m.path(make(p),track(p),2*c.steps); want.push_back(m.told()); models.push_back(m); if(c.cnst && !c.src) for(auto& p : ps) ba|=p.kind<2; m.start(); for(auto& p : ps) m.path(make(p),track(p),c.steps); coarse.push_back(m.told()); }
  if(kind==2) { seam::rec=false; std::unique_ptr<Atm> n; { Quiet q; n.reset(freshAtm(c,l,ea())); } n->Set_EvalThreads(1+choose(3)); { Quiet q; for(auto& o : n->GetnuSQuIDS()) more(o); } for(int t=0;;t++) { bool threw=false; armed=t<2; faults_default(t<2); faults_on(t<2); try { n->EvolveState(); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; if(t>=2) fail("spurious-failure","an evolution failed although nothing was wrong"); probe("tried again"); } armed=false; faults_default(false); if(!threw) break; Quiet q; state(*n,c); }
    Quiet q; for(int z=0;z<c.nz;z++) near(want[z],coarse[z],flavours(n->GetnuSQuIDS()[z],c)); probe("ensembles");
    int z=choose(c.nz), y=std::min(z+1,c.nz-1), e=choose(c.ne-1); double E=we==1?c.E[e+1]:c.E[e]+we*(c.E[e+1]-c.E[e]), cz=wz==1?c.cz[y]:c.cz[z]+wz*(c.cz[y]-c.cz[z]); auto span=[&](double x) { EarthAtm a; auto t=a.MakeTrackWithCosine(x); return t.GetFinalX()-t.GetInitialX(); }; std::vector<bool> av(c.nn); describe("evaluated at %g eV and %g, averaging from %g\n",E,cz,scale); Snap a, b; for(int r=0;r<models[0].nr;r++) for(int f=0;f<c.nn;f++) { double p=models[z].between(E,r,f,true,span(cz),span(c.cz[z]),ba,scale), q=models[y].between(E,r,f,true,span(cz),span(c.cz[y]),ba,scale); a.push_back(y==z?p:p+(q-p)*wz); b.push_back(scale>1e9?(r?n->EvalFlavor(f,cz,E,r):n->EvalFlavor(f,cz,E)):n->EvalFlavor(f,cz,E,r,scale,av)); } near(a,a,b); }
  else { std::unique_ptr<T> n(fresh(c,l)); for(int t=0;;t++) { bool threw=false; try { apply(*n,c); more(*n); for(int i=0;i<legs;i++) { auto b=make(ps[i]); auto tr=track(ps[i]); if(i) { int w=choose(6); if(w==0) { n.reset(new T(std::move(*n))); describe("moved\n"); } else if(w==1) { T o; o=std::move(*n); *n=std::move(o); describe("assigned\n"); } else if(w==2) { n->WriteStateHDF5("/simfs/p.h5"); std::unique_ptr<T> r(new T); r->ReadStateHDF5("/simfs/p.h5"); unsaved(*r,c); n=std::move(r); describe("restored\n"); probe("restored in between"); } }
          n->Set_Body(b); n->Set_Track(tr); if(i==0) state(*n,c); armed=t<2; faults_on(t<2); n->EvolveState(); faults_on(false); armed=false; } } catch(std::exception& e) { faults_on(false); armed=false; threw=true; if(t>=2) fail("spurious-failure","an evolution failed although nothing was wrong: %.80s",e.what()); probe("tried again"); } if(!threw) break; }
    near(want[0],coarse[0],flavours(*n,c)); if(c.ne>1) { int e=choose(c.ne-1); double E=we==1?c.E[e+1]:c.E[e]+we*(c.E[e+1]-c.E[e]); std::vector<bool> av(c.nn); describe("evaluated at %g eV, averaging from %g\n",E,scale); Snap a, b; for(int r=0;r<models[0].nr;r++) for(int f=0;f<c.nn;f++) { a.push_back(models[0].between(E,r,f,true,L,L,ba,scale)); b.push_back(scale>1e9?n->EvalFlavor(f,E,r):n->EvalFlavor(f,E,r,scale,av)); a.push_back(models[0].between(E,r,f,false,L,L,ba,scale)); b.push_back(scale>1e9?n->EvalMass(f,E,r):n->EvalMass(f,E,r,scale,av)); } near(a,a,b); probe("between nodes"); }
    else if(!c.multi) { double E=c.E[0]; std::vector<bool> av(c.nn); describe("evaluated at the energy, averaging from %g\n",scale); Snap a, b; for(int f=0;f<c.nn;f++) for(int v=0;v<2;v++) { a.push_back(models[0].between(E,0,f,!v,L,L,ba,scale)); b.push_back(scale>1e9?v?n->EvalMass(f):n->EvalFlavor(f):v?n->EvalMass(f,scale,av):n->EvalFlavor(f,scale,av)); } near(a,a,b); probe("single energy evaluated"); } }
  if(c.inter) probe("interactions"); if(c.tau) probe("tau regeneration"); if(c.gr && c.NT!=1) probe("Glashow resonance"); if(c.src) probe("sources"); if(!c.osc) probe("no oscillations"); nontrivial(); check_heap();
}
