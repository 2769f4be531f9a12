// ---- A09: new physics in derived classes (included by nusq.cpp) ------------------------------------------------------
// What a derived class adds to the Hamiltonian, to the attenuation or to the interactions takes effect exactly, and what it is shown meanwhile is the
// moment which is being evaluated; checked by physics whose effect is known: a potential which is the one of denser matter, uniform losses, uniform growth.
enum { DENSER=1, DENSER_BY_HAND, LOSS, GROWTH };
struct NP : T { int kind=0; double k=1, start=0; std::vector<squids::SU_vector> ev; using T::T; NP() {} NP(NP&&)=default; NP& operator=(NP&&)=default;
  void make(int w,double v) { kind=w; k=v; if(kind==LOSS) Set_NonCoherentRhoTerms(true); if(kind==GROWTH) Set_OtherRhoTerms(true); ev.assign(ne*nrhos,squids::SU_vector(nsun)); }
  squids::SU_vector potential(unsigned r,double cc,double nc) const { return squids::SU_vector((cc+nc)*b1_proj[r][0]+nc*b1_proj[r][1]+nc*b1_proj[r][2]); }
  void AddToPreDerive(double x) override { T::AddToPreDerive(x); const Track& t=*track; double L=std::fabs(t.GetFinalX()-t.GetInitialX());
    if(!(std::fabs(t.GetX()-t.GetInitialX()-(x-start))<=1e-9*(L+std::fabs(x)))) fail("hook-sees","asked for time %.17g since the start of the path, and the path is at %.17g",x-start,t.GetX()-t.GetInitialX());
    if(!same(current_density,body->density(t)) || !same(current_ye,body->ye(t))) fail("hook-sees","the density is %.17g at this point and the one shown %.17g",body->density(t),current_density);
    if(GetUseOscillations() && basis!=mass) for(unsigned r=0;r<nrhos;r++) { unsigned e=ne-1; squids::SU_vector p=b1_proj[r][1].Evolve(H0_array[e],x-Get_t_initial()); for(unsigned i=0;i<nsun*nsun;i++) if(!(std::fabs(p[i]-evol_b1_proj[r][1][e][i])<=1e-9)) fail("hook-sees","a flavour projector is not the one of this moment: %.17g and %.17g",evol_b1_proj[r][1][e][i],p[i]); }
    if(kind!=DENSER_BY_HAND) return; double c=params.sqrt2*params.GF*params.Na*std::pow(params.cm,-3)*current_density, cc=c*current_ye, nc=-0.5*c*(1-current_ye);
    for(unsigned e=0;e<ne;e++) for(unsigned r=0;r<nrhos;r++) { double s=(r==1 || NT==antineutrino)?-1:1; squids::SU_vector p=potential(r,s*(k-1)*cc,s*(k-1)*nc); if(basis==mass) ev[e*nrhos+r]=p; else ev[e*nrhos+r]=p.Evolve(H0_array[e],x-Get_t_initial()); } }
  squids::SU_vector HI(unsigned e,unsigned r) const override { squids::SU_vector h=T::HI(e,r); if(kind==DENSER_BY_HAND) return squids::SU_vector(h+ev[e*nrhos+r]); if(kind!=DENSER) return h; if(basis==mass) return squids::SU_vector(k*h+(1-k)*H0_array[e]); return squids::SU_vector(k*h); }
  squids::SU_vector GammaRho(unsigned e,unsigned r) const override { squids::SU_vector g=T::GammaRho(e,r); if(kind==LOSS) for(unsigned i=0;i<nsun;i++) g+=squids::SU_vector(k*b0_proj[i]); return g; }
  squids::SU_vector InteractionsRho(unsigned e,unsigned r) const override { squids::SU_vector g=T::InteractionsRho(e,r); if(kind==GROWTH) g+=squids::SU_vector(k*estate[e].rho[r]); return g; }
  void leg(std::shared_ptr<Body> b,std::shared_ptr<Track> t) { Set_Body(b); Set_Track(t); }
  void evolve() { start=Get_t(); EvolveState(); }
  void AddToWriteHDF5(hid_t g) const override { T::AddToWriteHDF5(g); addH5Attribute(g,"kind",kind); addH5Attribute(g,"k",k); }
  void AddToReadHDF5(hid_t g) override { T::AddToReadHDF5(g); int w; double v; readH5Attribute(g,"kind",w); readH5Attribute(g,"k",v); make(w,v); } };
typedef nuSQUIDSAtm<NP> AtmP;
struct Denser : EarthAtm { double k; explicit Denser(double k): k(k) {} double density(const GenericTrack& t) const override { return k*EarthAtm::density(t); } };
void a9() {
  static const char* W[]={"","a potential times a factor","a potential added by hand","uniform losses","uniform growth"};
  begin(false); int v=1+choose(4); bool all=choose(4)==3; Cfg c; gen(c,all?2:choose(3)?1:0); c.low=c.pos=c.src=false; if(v<=DENSER_BY_HAND) c.inter=c.gr=c.tau=false; else c.cnst=false; c.steps=12; double k= v<=DENSER_BY_HAND?0.5+0.5*choose(5):0.1*(1+choose(5)); describe("%s (%g), %s",W[v],k,all?"zenith angles, ":""); tell(c); probe(W[v]); auto l=library(c.per,c.a); double tol= v<=DENSER_BY_HAND?1e-9:2e-4;
  if(all) { seam::rec=false; if(c.ne<2) c.ne=2; c.multi=true; if(v>DENSER_BY_HAND) { k*=0.3/(50*U.km); for(int i=0;i<c.nz;i++) c.cz[i]=0.15+0.2*i+0.01*choose(10); } /* short paths for steps of this size */ marray<double,1> z{(size_t)c.nz}; for(int i=0;i<c.nz;i++) z[i]=c.cz[i]; std::unique_ptr<Atm> a; std::unique_ptr<AtmP> m; { Quiet q; a.reset(freshAtm(c,l,v<=DENSER_BY_HAND?std::make_shared<Denser>(k):nullptr)); a->EvolveState(); m.reset(new AtmP(z,erange(c),(unsigned)c.nn,NeutrinoType(c.NT),c.inter,l)); for(auto& n : m->GetnuSQuIDS()) { apply(n,c); n.make(v,k); } state(*m,c); }
    m->Set_EvalThreads(1+choose(3)); for(int t=0;;t++) { bool threw=false; uint64_t f0=fired_total()-fired(F_SPURIOUS); for(auto& n : m->GetnuSQuIDS()) n.start=n.Get_t(); armed=t<2; faults_on(t<2); faults_default(t<2); try { m->EvolveState(); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; if(fired_total()-fired(F_SPURIOUS)==f0) fail("spurious-failure","an evolution failed although nothing was wrong"); probe("tried again"); } armed=false; faults_default(false); if(!threw && fired(F_USER)+fired(F_ALLOC)+fired(F_THREAD)!=f0 && t<2 && fired_total()-fired(F_SPURIOUS)!=f0) fail("swallowed","something failed during the evolution, which returned as if all had gone well"); if(!threw) break; Quiet q; for(auto& n : m->GetnuSQuIDS()) apply(n,c); state(*m,c); }
    Quiet q; for(int i=0;i<c.nz;i++) { T& n=a->GetnuSQuIDS()[i]; Snap x=flavours(n,c), y=flavours(m->GetnuSQuIDS()[i],c); double L=n.GetTrack()->GetFinalX()-n.GetTrack()->GetInitialX(), f= v==LOSS?std::exp(-2*k*L):v==GROWTH?std::exp(k*L):1; for(double& w : x) w*=f; equal(x,y,tol,"physics-differs",W[v]); } nontrivial(); check_heap(); return; }
  int legs=1+choose(3); std::vector<Path> ps; double at=0, L=0; for(int i=0;i<legs;i++) { Path p; genp(p,false); p.rev=false; p.kind=choose(4)?choose(3):3; p.a=at; p.b=at+60*(1+choose(5)); at=choose(2)?p.b:0; if(p.kind==3) p.cz=0.15+0.1*choose(6); auto t=track(p); L+=t->GetFinalX()-t->GetInitialX(); ps.push_back(p); describe("path kind %d from %g to %g km\n",p.kind,p.a,p.b); } if(v>DENSER_BY_HAND) k/=L;
  auto denser=[&](const Path& p)->std::shared_ptr<Body> { double f= v<=DENSER_BY_HAND?k:1; if(p.kind==3) return std::make_shared<Denser>(f); if(p.kind==2) return std::make_shared<VariableDensity>(std::vector<double>{0,1000*U.km,1500*U.km,2500*U.km},std::vector<double>{f*p.rho,f*0.7,f*0.6,f*0.8},std::vector<double>{p.ye,0.5,0.49,0.47}); Path q=p; q.rho*=f; return body(q,c); };
  std::unique_ptr<T> u(fresh(c,l)); apply(*u,c); for(int i=0;i<legs;i++) { u->Set_Body(denser(ps[i])); u->Set_Track(track(ps[i])); if(i==0) state(*u,c); u->EvolveState(); }
  std::unique_ptr<NP> n; if(c.multi) n.reset(new NP(erange(c),c.nn,NeutrinoType(c.NT),c.inter,l)); else { n.reset(new NP(c.nn,NeutrinoType(c.NT))); n->Set_E(c.E[0]); } n->make(v,k);
  for(int t=0;;t++) { bool threw=false; uint64_t f0=fired_total(); try { apply(*n,c); for(int i=0;i<legs;i++) { std::shared_ptr<Body> b=body(ps[i],c); std::shared_ptr<Track> tr=track(ps[i]); if(i) { int w=choose(6); if(w==0) { n.reset(new NP(std::move(*n))); describe("moved\n"); } else if(w==1) { NP o; o=std::move(*n); *n=std::move(o); describe("assigned\n"); } else if(w==2) { n->WriteStateHDF5("/simfs/p.h5"); std::unique_ptr<NP> r(new NP); r->ReadStateHDF5("/simfs/p.h5"); unsaved(*r,c); n=std::move(r); describe("restored\n"); probe("restored in between"); } }
        n->Set_Body(b); n->Set_Track(tr); if(i==0) state(*n,c); if(i==0 && v<=DENSER_BY_HAND) { std::unique_ptr<T> w(fresh(c,l)); apply(*w,c); w->Set_Body(denser(ps[0])); w->Set_Track(track(ps[0])); state(*w,c); n->start=n->Get_t(); int e=choose(c.ne); unsigned r=choose(n->GetNumRho()); squids::SU_vector x=w->GetHamiltonian(e,r), y=n->GetHamiltonian(e,r), d(x); d-=y; if(!(d*d<=1e-18*(x*x))) fail("physics-differs","%s: the square of the Hamiltonian is %.17g and should be %.17g",W[v],y*y,x*x); probe("Hamiltonian"); }
          armed=t<2; faults_on(t<2); n->evolve(); faults_on(false); armed=false; } } catch(std::exception& e) { faults_on(false); armed=false; threw=true; if(fired_total()==f0) fail("spurious-failure","an evolution failed although nothing was wrong: %.80s",e.what()); probe("tried again"); } if(!threw && fired_total()!=f0) fail("swallowed","something failed during the evolution, which returned as if all had gone well"); if(!threw) break; }
  Snap x=flavours(*u,c), y=flavours(*n,c); double f= v==LOSS?std::exp(-2*k*L):v==GROWTH?std::exp(k*L):1; for(double& w : x) w*=f; equal(x,y,tol,"physics-differs",W[v]); nontrivial(); check_heap();
}
