// ---- X03: cross sections by default (included by nusq.cpp) ---------------------------------------------------------
// Tables of protons and neutrons below the data path (built in, or given by the environment) are used when none are given:
// completely, or there is a failure after which nothing is left and a repetition succeeds.
struct Def { tabs::Tab t[2]; };
void puttabs(const Def& d,const std::string& dir) { tabs::puth5(d.t[0],(dir+"/xsections/csms_proton.h5").c_str()); tabs::puth5(d.t[1],(dir+"/xsections/csms_neutron.h5").c_str()); }
void complete(const Def& d,const CrossSectionLibrary& l) { if(!l.hasTarget(proton) || !l.hasTarget(neutron) || !l.hasTarget(nusquids::electron)) fail("incomplete-library","the default cross sections have no %s",!l.hasTarget(proton)?"proton":!l.hasTarget(neutron)?"neutron":"electron"); if(l.hasTarget(isoscalar_nucleon)) fail("incomplete-library","the default cross sections have isoscalar nucleons");
  for(int k=0;k<2;k++) { auto p=std::dynamic_pointer_cast<const tabs::D2>(l.crossSectionForTarget(k?neutron:proton)); if(!p) fail("incomplete-library","the default cross sections are not tables"); tabs::truth(d.t[k],*p,p->GetEmin(),p->GetEmax(),1e-9,k?"were loaded by default for the neutron":"were loaded by default for the proton"); }
  GlashowResonanceCrossSection g; auto p=l.crossSectionForTarget(nusquids::electron); double a=g.TotalCrossSection(6.3e15,X::electron,X::antineutrino,X::GR), b=p->TotalCrossSection(6.3e15,X::electron,X::antineutrino,X::GR); if(!same(a,b)) fail("incomplete-library","the Glashow resonance is %g by default and should be %g",b,a); }
void loader(CrossSectionLibrary* to,int* res) { try { CrossSectionLibrary l=loadDefaultCrossSections(); FaultsOff off; *to=std::move(l); *res=1; } catch(std::exception&) { *res=2; } }
void x3() {
  begin(true); std::unique_ptr<Def> dp(new Def), other(new Def); Def& d=*dp; for(int k=0;k<2;k++) { tabs::gen(d.t[k],2); tabs::gen(other->t[k],2); } bool env=choose(2), ref=choose(2); const char* E="/simfs/data"; std::string dir=env?E:"/simfs/"; int mode=choose(4), where=choose(4); static const char* M[]={"library","library in several threads","object","ensemble"};
  describe("%s, data path %s\n",M[mode],env?"from the environment":"built in"); unsetenv("NUSQUIDS_DATA_PATH"); if(env) { setenv("NUSQUIDS_DATA_PATH",E,1); std::string m=disk_get("/simfs//astro/EARTH_MODEL_PREM.dat"); disk_put("/simfs/data/astro/EARTH_MODEL_PREM.dat",m.data(),m.size()); } probe(env?"path from the environment":"path built in"); bool both=choose(2); if(both) puttabs(*other,env?"/simfs/":E); // what lies elsewhere does not matter
  if(both && choose(2)) { describe("first loaded from the other path\n"); if(env) unsetenv("NUSQUIDS_DATA_PATH"); else setenv("NUSQUIDS_DATA_PATH",E,1); { Quiet q; CrossSectionLibrary l=loadDefaultCrossSections(); complete(*other,l); } if(env) setenv("NUSQUIDS_DATA_PATH",E,1); else unsetenv("NUSQUIDS_DATA_PATH"); probe("path changed in between"); }
  // a first time without the tables, or with one which is not complete
  if(where==3) { int w=choose(4), k=choose(2); Def b=d; std::string f=dir+(k?"/xsections/csms_neutron.h5":"/xsections/csms_proton.h5"); if(w==0) { if(choose(2)) { puttabs(d,dir); disk_remove(f.c_str()); } } else if(w==1) { tabs::Tab& t=b.t[k]; int fl=choose(t.distinct==0?1:t.distinct>1?2:3); if(t.distinct==3 && fl==1) fl=0; t.bad=choose(2)*12+fl*4+choose(4); t.bad2=choose(2); puttabs(b,dir); } else { puttabs(d,dir); std::string s=disk_get(f.c_str()); if(w==2) { size_t c=choose(s.size()/2); disk_put(f.c_str(),s.data(),c); } else disk_put(f.c_str(),"junk",4); }
    static const char* W[]={"missing","incomplete","cut short","something else"}; describe("first, a table is %s\n",W[w]); bool t=false; int h0=handles(); try { CrossSectionLibrary l=loadDefaultCrossSections(); } catch(std::exception&) { t=true; } if(!t) fail("incomplete-accepted","a table is %s, and the default cross sections were loaded",W[w]); if(handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0); probe("table missing or damaged"); }
  puttabs(d,dir); int h0=handles();
  if(mode==0) { CrossSectionLibrary l; auto rd=[&]{ l=loadDefaultCrossSections(); }; uint64_t i0=io(), r0=seam::refusals; bool threw=failed(true,ref,rd,"loading"); disk_heal(); if(io()==i0 && (uint64_t)seam::refusals==r0 && handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0); if(threw) rd(); complete(d,l); nontrivial(); check_heap(); return; }
  if(mode==1) { seam::rec=false; int n=2+choose(2), res[4]={0,0,0,0}; CrossSectionLibrary lib[4]; std::vector<std::thread> th; uint64_t f0=fired_total(), i0=io(); { Quiet q; th.reserve(4); } faults_default(choose(2)); bool refused=false; for(int i=1;i<n;i++) { try { th.emplace_back(loader,&lib[i],&res[i]); } catch(std::exception&) { refused=true; } } loader(&lib[0],&res[0]); for(auto& t : th) t.join(); faults_default(false); Quiet q; bool f=fired_total()!=f0; for(int i=0;i<n;i++) if(res[i]==2 && !f) fail("spurious-failure","loading failed although nothing was wrong"); (void)refused; if(io()==i0) for(int i=0;i<n;i++) if(res[i]==1) complete(d,lib[i]); // (HDF5 shares the buffer of a data set which is open twice, and after a failed read hands it out to the other reader)
  disk_heal(); CrossSectionLibrary l=loadDefaultCrossSections(); complete(d,l); nontrivial(); return; }
  Cfg c; do gen(c,mode==3?2:1); while(c.ne<2); c.inter=true; c.per=true; c.src=c.cnst=false; if(c.ne>4) c.ne=4; double lo=std::max(d.t[0].E[0],d.t[1].E[0])*1.1, hi=std::min(d.t[0].E[d.t[0].nE-1],d.t[1].E[d.t[1].nE-1])*0.9; if(hi<lo*1.2) { nontrivial(); return; } for(int i=0;i<c.ne;i++) c.E[i]=1e9*lo*std::pow(hi/lo,i/double(c.ne-1)); tell(c);
  auto l=std::make_shared<CrossSectionLibrary>(); l->addTarget(proton,tabs::D2(dir+"/xsections/csms_proton.h5")); l->addTarget(neutron,tabs::D2(dir+"/xsections/csms_neutron.h5")); l->addTarget(nusquids::electron,GlashowResonanceCrossSection()); Snap a, b, ta, tb; bool late=choose(2);
  if(mode==2) { Path p; genp(p,false); std::unique_ptr<T> u(fresh(c,l)), m(new T(erange(c),c.nn,NeutrinoType(c.NT),true)); oneleg(*u,(apply(*u,c),c),p,true); apply(*m,c); m->Set_Body(body(p,c)); m->Set_Track(track(p)); state(*m,c); for(int t=0;;t++) { auto go=[&]{ if(late) m->EvolveState(); else m->InitializeInteractions(); }; uint64_t i0=io(), r0=seam::refusals; bool threw=false; if(t<2) threw=failed(false,ref,go,"the first use"); else go(); disk_heal(); if(io()==i0 && (uint64_t)seam::refusals==r0 && handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0); h0=handles(); if(threw) { state(*m,c); continue; } if(!late) m->EvolveState(); break; } a=whole(*u,c); b=whole(*m,c); ta=tables(*u,c); tb=tables(*m,c); complete(d,*m->GetNeutrinoCrossSections()); }
  else { seam::rec=false; marray<double,1> z{(size_t)c.nz}; for(int i=0;i<c.nz;i++) z[i]=c.cz[i]; std::unique_ptr<Atm> u(freshAtm(c,l,nullptr)), m(new Atm(z,erange(c),(unsigned)c.nn,NeutrinoType(c.NT),true)); applyAll(*m,c,false); state(*m,c); { Quiet q; u->EvolveState(); } m->Set_EvalThreads(1+choose(3)); for(int t=0;;t++) { auto go=[&]{ m->EvolveState(); }; bool threw=false; if(t<2) { faults_default(true); threw=failed(false,false,go,"the first use"); faults_default(false); } else go(); disk_heal(); if(threw) { state(*m,c); continue; } break; } Quiet q; a=whole(*u,c); b=whole(*m,c); ta=tables(*u,c); tb=tables(*m,c); }
  equal(ta,tb,0,"default-differs","the cross sections by default are not those of the tables"); equal(a,b,0,"default-differs","evolving with the cross sections by default gives another result"); nontrivial(); check_heap();
}
