// ---- A08: calls which are refused (included by nusq.cpp) -----------------------------------------------------------
// an object which is given calls that do not fit it, at any point of its history, against one which is not
struct Bad { const char* name; std::function<void()> f; };
template<size_t R> marray<double,R> arr(std::initializer_list<size_t> d) { marray<double,R> a; a.resize(std::vector<size_t>(d)); std::fill(a.begin(),a.end(),0.3); return a; }
void bads(std::vector<Bad>& v,T& n,const Cfg& c,bool ready,bool trk,bool hasE) { T* p=&n; size_t N=c.nn, E=c.ne; unsigned nn=c.nn; bool both=c.NT==3; double lo=c.multi?c.E[0]:0, hi=c.multi?c.E[c.ne-1]:0; (void)lo; Basis ok=c.mixed?mass:flavor;
  v.push_back({"flavour basis to evolve in",[=]{ p->Set_Basis(flavor); }});
  v.push_back({"mixing angle of a flavour too many",[=]{ p->Set_MixingAngle(0,nn+1,0.5); }}); v.push_back({"mixing angle with a flavour itself",[=]{ p->Set_MixingAngle(1,1,0.5); }}); v.push_back({"mixing angle in the wrong order",[=]{ p->Set_MixingAngle(2,1,0.5); }}); v.push_back({"phase of a flavour too many",[=]{ p->Set_CPPhase(nn+1,nn+2,0.5); }}); v.push_back({"phase in the wrong order",[=]{ p->Set_CPPhase(2,0,0.5); }});
  v.push_back({"mass difference of a flavour too many",[=]{ p->Set_SquareMassDifference(nn+1,0.5); }}); v.push_back({"mass difference of the first",[=]{ p->Set_SquareMassDifference(0,0.5); }}); v.push_back({"reading an angle of a flavour too many",[=]{ p->Get_MixingAngle(0,nn+1); }}); v.push_back({"reading a phase of a flavour too many",[=]{ p->Get_CPPhase(nn+1,nn+2); }}); v.push_back({"reading a mass difference of a flavour too many",[=]{ p->Get_SquareMassDifference(nn+1); }});
  v.push_back({"empty state",[=]{ p->Set_initial_state(arr<1>({0}),ok); }}); v.push_back({"empty state of many energies",[=]{ p->Set_initial_state(arr<2>({E,0}),ok); }}); v.push_back({"empty state of both",[=]{ p->Set_initial_state(arr<3>({E,0,N}),ok); }});
  v.push_back({"a flavour too many",[=]{ p->Set_initial_state(arr<1>({N+1}),ok); }}); v.push_back({"a flavour missing",[=]{ p->Set_initial_state(arr<2>({E,N-1}),ok); }}); v.push_back({"a flavour too many for both",[=]{ p->Set_initial_state(arr<3>({E,2,N+1}),ok); }}); v.push_back({"an energy too many",[=]{ p->Set_initial_state(arr<2>({E+1,N}),ok); }}); v.push_back({"an energy missing",[=]{ p->Set_initial_state(arr<3>({E+2,2,N}),ok); }}); v.push_back({"a third type",[=]{ p->Set_initial_state(arr<3>({E,3,N}),ok); }});
  if(both) { v.push_back({"one type instead of both",[=]{ p->Set_initial_state(arr<2>({E,N}),ok); }}); v.push_back({"one type instead of both",[=]{ p->Set_initial_state(arr<1>({N}),ok); }}); } else { v.push_back({"both instead of one type",[=]{ p->Set_initial_state(arr<3>({E,2,N}),ok); }}); v.push_back({"both instead of one type",[=]{ p->Set_initial_state(arr<3>({E,1,N}),ok); }}); }
  if(c.ne!=1) { v.push_back({"one energy instead of many",[=]{ p->Set_initial_state(arr<1>({N}),ok); }}); v.push_back({"another energy",[=]{ p->Set_E(2e12); }}); if(hasE) { v.push_back({"a flavour without energy",[=]{ p->EvalFlavor(0); }}); v.push_back({"a mass state without energy",[=]{ p->EvalMass(0); }}); } }
  v.push_back({"state in the interaction basis",[=]{ if(c.NT==3) p->Set_initial_state(arr<3>({E,2,N}),interaction); else if(c.multi) p->Set_initial_state(arr<2>({E,N}),interaction); else p->Set_initial_state(arr<1>({N}),interaction); }});
  if(!trk || !hasE) v.push_back({"state too early",[=]{ if(c.NT==3) p->Set_initial_state(arr<3>({E,2,N}),ok); else if(c.multi) p->Set_initial_state(arr<2>({E,N}),ok); else p->Set_initial_state(arr<1>({N}),ok); }});
  if(!ready) { v.push_back({"evolution too early",[=]{ p->EvolveState(); }}); v.push_back({"saving too early",[=]{ p->WriteStateHDF5("/simfs/early.h5"); if(true) {} }}); }
  if(!c.inter || !both) v.push_back({"tau regeneration",[=]{ p->Set_TauRegeneration(true); }}); if(!c.inter) v.push_back({"Glashow resonance",[=]{ p->Set_GlashowResonance(true); }}); if(!c.inter) v.push_back({"interaction data",[=]{ p->GetInteractionStructure(); }});
  v.push_back({"a file which is not there",[=]{ p->ReadStateHDF5("/simfs/none.h5"); }}); v.push_back({"a group which is not there",[=]{ p->ReadStateHDF5("/simfs/some.h5","/none"); }});
  if(hasE && c.multi) { v.push_back({"an energy too small",[=]{ if(p->EvalFlavor(0,lo*0.9,0)) {} }}); v.push_back({"an energy too large",[=]{ if(p->EvalFlavor(1,hi*1.1,0)) {} }}); v.push_back({"an energy too large for averages",[=]{ std::vector<bool> a(N); if(p->EvalMass(1,hi*1.1,0,2.,a)) {} }}); v.push_back({"averages of the wrong size",[=]{ std::vector<bool> a(N+1); if(p->EvalFlavor(1,c.E[0],0,2.,a)) {} }}); v.push_back({"averages of the wrong size",[=]{ std::vector<bool> a(N-1); if(p->EvalMass(1,c.E[0],0,2.,a)) {} }});
    if(!both) { v.push_back({"the other type",[=]{ p->EvalFlavor(0,c.E[0],1); }}); v.push_back({"the other type at a node",[=]{ p->EvalFlavorAtNode(0,0,1); }}); v.push_back({"the other type, mass",[=]{ p->EvalMass(0,c.E[0],1); }}); v.push_back({"the other type at a node, mass",[=]{ p->EvalMassAtNode(0,0,1); }}); } }
  unsigned far=nn+choose(3), nr=both?2+choose(2):1+choose(3), en=c.ne+choose(3);
  if(hasE) { double e0=c.E[0]; v.push_back({"a flavour which is not there, with energy",[=]{ p->EvalFlavor(far,e0,0); }}); v.push_back({"a mass state which is not there, with energy",[=]{ p->EvalMass(far,e0,0); }}); v.push_back({"a type which is not there",[=]{ p->EvalFlavor(0,e0,nr); }}); v.push_back({"a type which is not there, mass",[=]{ p->EvalMass(0,e0,nr); }}); v.push_back({"an averaged type which is not there",[=]{ std::vector<bool> a(N); p->EvalFlavor(0,e0,nr,2.,a); }}); v.push_back({"an averaged mass state which is not there, with energy",[=]{ std::vector<bool> a(N); p->EvalMass(far,e0,0,2.,a); }}); v.push_back({"an averaged flavour which is not there, with energy",[=]{ std::vector<bool> a(N); p->EvalFlavor(far,e0,0,2.,a); }});
    v.push_back({"a mass state at an energy too small",[=]{ p->EvalMass(1,e0*0.9,0); }}); v.push_back({"a flavour at a node which is not there",[=]{ p->EvalFlavorAtNode(0,en); }}); v.push_back({"a mass state at a node which is not there",[=]{ p->EvalMassAtNode(0,en); }}); v.push_back({"a flavour which is not there, at a node",[=]{ p->EvalFlavorAtNode(far,0); }}); v.push_back({"a mass state which is not there, at a node",[=]{ p->EvalMassAtNode(far,0); }}); v.push_back({"a type which is not there, at a node",[=]{ p->EvalFlavorAtNode(0,0,nr); }}); v.push_back({"a mass state of a type which is not there, at a node",[=]{ p->EvalMassAtNode(0,0,nr); }}); v.push_back({"the Hamiltonian at a node which is not there",[=]{ p->GetHamiltonian(en); }}); v.push_back({"the Hamiltonian of a type which is not there",[=]{ p->GetHamiltonian(0,nr); }}); if(!trk) v.push_back({"the Hamiltonian without a path",[=]{ p->GetHamiltonian(0); }}); }
  if(hasE && c.ne==1) { v.push_back({"a flavour which is not there",[=]{ p->EvalFlavor(nn); }}); v.push_back({"a mass state which is not there",[=]{ p->EvalMass(nn); }}); v.push_back({"an averaged flavour which is not there",[=]{ std::vector<bool> a(N); p->EvalFlavor(nn,2.,a); }}); v.push_back({"an averaged mass state which is not there",[=]{ std::vector<bool> a(N); p->EvalMass(nn,2.,a); }}); }
  if(!hasE) { v.push_back({"a flavour too early",[=]{ p->EvalFlavor(0); }}); v.push_back({"the Hamiltonian too early",[=]{ p->GetHamiltonian(0); }}); }
}
void bads(std::vector<Bad>& v,Atm& n,const Cfg& c,bool ready) { Atm* p=&n; size_t Z=c.nz,N=c.nn, E=c.ne; unsigned nn=c.nn; bool both=c.NT==3; double z0=c.cz[0], z1=c.cz[c.nz-1], lo=c.E[0], hi=c.E[c.ne-1]; Basis ok=c.mixed?mass:flavor;
  v.push_back({"an angle too many",[=]{ p->Set_initial_state(arr<3>({Z+1,E,N}),ok); }}); v.push_back({"an angle too many for both",[=]{ p->Set_initial_state(arr<4>({Z+1,E,2,N}),ok); }}); v.push_back({"an energy too many",[=]{ p->Set_initial_state(arr<3>({Z,E+1,N}),ok); }}); v.push_back({"an energy too many for both",[=]{ p->Set_initial_state(arr<4>({Z,E+1,2,N}),ok); }}); v.push_back({"a flavour too many",[=]{ p->Set_initial_state(arr<3>({Z,E,N+1}),ok); }}); v.push_back({"a flavour missing for both",[=]{ p->Set_initial_state(arr<4>({Z,E,2,N-1}),ok); }}); v.push_back({"a third type",[=]{ p->Set_initial_state(arr<4>({Z,E,3,N}),ok); }});
  if(both) v.push_back({"one type instead of both",[=]{ p->Set_initial_state(arr<3>({Z,E,N}),ok); }}); else v.push_back({"both instead of one type",[=]{ p->Set_initial_state(arr<4>({Z,E,2,N}),ok); }});
  v.push_back({"mixing angle of a flavour too many",[=]{ p->Set_MixingAngle(0,nn+1,0.5); }}); v.push_back({"phase in the wrong order",[=]{ p->Set_CPPhase(2,0,0.5); }}); v.push_back({"mass difference of the first",[=]{ p->Set_SquareMassDifference(0,0.5); }});
  v.push_back({"an angle which is not there",[=]{ p->GetnuSQuIDS(c.nz); }}); unsigned iz=c.nz+choose(3), far=nn+choose(3); v.push_back({"the step of an angle which is not there",[=]{ p->Set_h(1.,iz); }}); v.push_back({"the largest step of an angle which is not there",[=]{ p->Set_h_max(1.,iz); }}); v.push_back({"the smallest step of an angle which is not there",[=]{ p->Set_h_min(1.,iz); }}); v.push_back({"the error of an angle which is not there",[=]{ p->Set_abs_error(1.,iz); }}); v.push_back({"the relative error of an angle which is not there",[=]{ p->Set_rel_error(1.,iz); }}); v.push_back({"no Earth",[=]{ p->Set_EarthModel(nullptr); }}); if(!c.inter || !both) v.push_back({"tau regeneration",[=]{ p->Set_TauRegeneration(true); }}); if(!c.inter) v.push_back({"Glashow resonance",[=]{ p->Set_GlashowResonance(true); }});
  v.push_back({"a file which is not there",[=]{ p->ReadStateHDF5("/simfs/none.h5"); }}); v.push_back({"a file which is there already",[=]{ p->WriteStateHDF5("/simfs/some.h5",false); }}); v.push_back({"a file which is something else",[=]{ p->ReadStateHDF5("/simfs/junk.h5"); }});
  if(!ready) { v.push_back({"evolution too early",[=]{ p->EvolveState(); }}); v.push_back({"a flavour too early",[=]{ p->EvalFlavor(0,z0,lo,0); }}); v.push_back({"an averaged flavour too early",[=]{ p->EvalFlavor(0,z0,lo,0,2.,std::vector<bool>(N)); }}); v.push_back({"saving too early",[=]{ p->WriteStateHDF5("/simfs/early.h5"); }}); return; }
  v.push_back({"a flavour which is not there",[=]{ p->EvalFlavor(far,z0,lo,0); }}); v.push_back({"an averaged flavour which is not there",[=]{ p->EvalFlavor(far,z1,hi,0,2.,std::vector<bool>(N)); }});
  v.push_back({"an angle too small",[=]{ p->EvalFlavor(0,z0-0.01,lo,0); }}); v.push_back({"an angle too large",[=]{ p->EvalFlavor(0,z1+0.01,lo,0); }}); v.push_back({"an energy too small",[=]{ p->EvalFlavor(0,z0,lo*0.99,0); }}); v.push_back({"an energy too large",[=]{ p->EvalFlavor(0,z1,hi*1.01,0); }}); v.push_back({"a third type",[=]{ p->EvalFlavor(0,z0,lo,2); }}); if(!both) { v.push_back({"the other type",[=]{ p->EvalFlavor(0,z0,lo,1); }}); v.push_back({"the other type, averaged",[=]{ p->EvalFlavor(0,z0,lo,1,2.,std::vector<bool>(N)); }}); }
  v.push_back({"an angle too large for averages",[=]{ p->EvalFlavor(0,z1+0.01,lo,0,2.,std::vector<bool>(N)); }}); v.push_back({"an energy too small for averages",[=]{ p->EvalFlavor(0,z0,lo*0.99,0,2.,std::vector<bool>(N)); }}); v.push_back({"a third type for averages",[=]{ p->EvalFlavor(0,z0,lo,2,2.,std::vector<bool>(N)); }}); }
void tryall(std::vector<Bad>& v,const char* when) { int k=choose(4); for(int i=0;i<k;i++) { Bad& b=v[choose(v.size())]; describe("%s: %s\n",when,b.name); bool threw=false; faults_on(true); try { b.f(); faults_on(false); } catch(std::exception& e) { faults_on(false); threw=true; } if(!threw) fail("not-refused","%s was not refused",b.name); } }
void a8() {
  begin(false); seam::rec=false; disk_put("/simfs/junk.h5","junk",4); Cfg c; int kind=choose(3)==2?2:choose(3)?1:0; gen(c,kind); tell(c); auto l=library(c.per,c.a); std::string some; int h0=handles();
  { std::unique_ptr<T> s(new T(3,neutrino)); s->Set_E(1e12); s->Set_Body(std::make_shared<Vacuum>()); s->Set_Track(std::make_shared<Vacuum::Track>(0.,100*U.km)); s->Set_initial_state(arr<1>({3}),flavor); s->WriteStateHDF5("/simfs/some.h5","/state"); some=disk_get("/simfs/some.h5"); }
  if(choose(4)==3) { // objects which cannot be
    int w=choose(6); Mark mk=mark(); bool t=false; describe("an object which cannot be: %d\n",w); faults_on(true); try { auto e=erange(c); marray<double,1> z{1}; z[0]=-0.5; if(w==0) T q(2,neutrino); else if(w==1) T q(3,both); else if(w==2) T q(40,antineutrino); else if(w==3) T q(e,2,neutrino,c.inter,l); else if(w==4) T q(e,40,both,c.inter,l); else Atm q(z,e,2u,neutrino,c.inter,l); faults_on(false); } catch(std::exception&) { faults_on(false); t=true; } if(!t) fail("not-refused","an object which cannot be was made"); if(leaked(mk)>0) { dump_live("leak"); fail("leak","%ld blocks are kept by an object which could not be made",leaked(mk)); } probe("object refused"); }
  std::unique_ptr<T> u, m; std::unique_ptr<Atm> ua, ma; int k=1+choose(3); std::vector<Bad> v; Snap a;
  auto attempts=[&](const char* when,bool ready,bool trk,bool hasE) { v.clear(); if(kind==2) bads(v,*ma,c,ready); else bads(v,*m,c,ready,trk,hasE); tryall(v,when); };
  auto same_as=[&](const char* when) { a=kind==2?whole(*ua,c):whole(*u,c); Snap b=kind==2?whole(*ma,c):whole(*m,c); equal(a,b,0,"refused-changes",when); };
  if(kind==2) { marray<double,1> z{(size_t)c.nz}; for(int i=0;i<c.nz;i++) z[i]=c.cz[i]; ua.reset(freshAtm(c,l,nullptr)); ma.reset(new Atm(z,erange(c),(unsigned)c.nn,NeutrinoType(c.NT),c.inter,l)); attempts("new",false,false,true); ma.reset(freshAtm(c,l,nullptr)); }
  else { u.reset(fresh(c,l)); if(choose(2)) { m.reset(c.multi?new T(erange(c),c.nn,NeutrinoType(c.NT),c.inter,l):new T(c.nn,NeutrinoType(c.NT))); attempts("new",false,false,c.multi); if(!c.multi) m->Set_E(c.E[0]); } else m.reset(fresh(c,l)); apply(*u,c); attempts("before the settings",false,false,true); apply(*m,c); attempts("after the settings",false,false,true); }
  for(int i=0;i<k;i++) { bool st=i==0 || choose(2);
    if(kind==2) { attempts("before the state",true,true,true); if(st) { state(*ua,c); state(*ma,c); } } else { Path p; genp(p,c.src); auto b=body(p,c); u->Set_Body(b); u->Set_Track(track(p)); m->Set_Body(b); m->Set_Track(track(p)); attempts("before the state",i>0,true,true); if(st) { state(*u,c); state(*m,c); } }
    attempts("before the evolution",true,true,true); same_as("a refused call before the evolution changed the object"); if(kind==2) { ua->EvolveState(); ma->EvolveState(); } else { u->EvolveState(); m->EvolveState(); } same_as("a refused call before the evolution changed its result"); attempts("after the evolution",true,true,true); same_as("a refused call after the evolution changed the object"); }
  if(disk_get("/simfs/some.h5")!=some) fail("state-destroyed","a refused call changed a file"); if(disk_exists("/simfs/early.h5")) fail("state-destroyed","a refused call made a file"); if(handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0);
  nontrivial(); check_heap();
}
