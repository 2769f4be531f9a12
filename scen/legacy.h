// ---- S03: state files of earlier versions (included by nusq.cpp) ---------------------------------------------------
// A state is saved as the current version saves it, and the file is turned into what an earlier version would have written:
// up to 1.0.0 bodies and paths were numbers (an identifier and arrays), before 1.11.0 there was one isoscalar target
// without a dimension of its own and without a list of targets, tau decay spectra were averaged over the polarization, and
// the settings which were added later are missing.
struct Old { unsigned id; std::vector<double> bp; };
struct Path3 { int kind; double a, b, rho, ye, cz; };
const char* SUN="0.1 0.00161 1.5e7 1.5e2 2.3e17 0 0.36 0.62 0 0 0 0\n0.2 0.1 1.3e7 9e1 1.7e17 0.1 0.5 0.48 0 0 0 0\n0.3 0.3 6e6 1.2e1 6e16 0.6 0.7 0.28 0 0 0 0\n0.4 0.6 3e6 5e-1 2e16 0.9 0.73 0.24 0 0 0 0\n0.5 0.9 5e5 2e-2 1e15 1 0.74 0.24 0 0 0 0\n";
struct Pair3 { std::shared_ptr<Body> b; std::shared_ptr<Track> t; };
Pair3 make3(const Path3& p) { Pair3 r; double a=p.a*U.km, b=p.b*U.km; switch(p.kind) {
  case 1: r.b=std::make_shared<Vacuum>(); r.t=std::make_shared<Vacuum::Track>(a,b); break;
  case 2: r.b=std::make_shared<ConstantDensity>(p.rho,p.ye); r.t=std::make_shared<ConstantDensity::Track>(a,b); break;
  case 3: r.b=std::make_shared<VariableDensity>(std::vector<double>{0,1000*U.km,1500*U.km,2500*U.km},std::vector<double>{p.rho,0.7,0.6,0.8},std::vector<double>{p.ye,0.5,0.49,0.47}); r.t=std::make_shared<VariableDensity::Track>(a,b); break;
  case 4: r.b=std::make_shared<Earth>(); r.t=std::make_shared<Earth::Track>(a,b,b+500*U.km); break;
  case 5: r.b=std::make_shared<Sun>(); r.t=std::make_shared<Sun::Track>(a,b); break;
  case 6: r.b=std::make_shared<SunASnu>(); r.t=std::make_shared<SunASnu::Track>(a,(690000+p.b)*U.km); break;
  default: { auto e=std::make_shared<EarthAtm>(); r.b=e; r.t=std::make_shared<EarthAtm::Track>(e->MakeTrack(std::acos(p.cz))); } } return r; }
Old old3(const Path3& p) { Old o; o.id=p.kind; if(p.kind==2) o.bp={p.rho,p.ye}; if(p.kind==3) o.bp={0,1000*U.km,1500*U.km,2500*U.km,p.rho,0.7,0.6,0.8,p.ye,0.5,0.49,0.47}; return o; }
void gen3(Path3& p) { p.kind=1+choose(7); p.a=choose(2)?0:50*choose(5); p.b=p.a+100*(1+choose(8)); p.rho=0.5+0.5*choose(3); p.ye=0.45+0.05*choose(2); p.cz=-0.9+0.2*choose(8); }
const char* path3(const Path3& p) { static const char* n[]={"","vacuum","constant density","variable density","Earth","Sun","Sun (other path)","atmosphere"}; return n[p.kind]; }
void need(bool ok) { if(!ok) fail("layout-changed","a state just written lacks what state files of every version hold"); }
typedef std::vector<double> Dbl;
Dbl rdset(hid_t g,const char* n,std::vector<hsize_t>& d) { int k=0; need(H5LTget_dataset_ndims(g,n,&k)>=0); d.assign(k?k:1,1); need(H5LTget_dataset_info(g,n,d.data(),nullptr,nullptr)>=0); size_t t=1; for(hsize_t x : d) t*=x; Dbl v(t+1); need(H5LTread_dataset_double(g,n,v.data())>=0); v.resize(t); return v; }
void wrset(hid_t g,const char* n,const std::vector<hsize_t>& d,const Dbl& v) { static double none; need(H5LTmake_dataset_double(g,n,d.size(),d.data(),v.empty()?&none:v.data())>=0); }
// one target less
void flatten(hid_t g,const char* n) { std::vector<hsize_t> d; Dbl v=rdset(g,n,d); need(d[0]==1); d.erase(d.begin()); need(H5Ldelete(g,n,H5P_DEFAULT)>=0); wrset(g,n,d,v); }
// polarization averaged: the same for both (of the spectra only decays to smaller energies are meaningful)
void average(hid_t g,const char* n) { std::vector<hsize_t> d; Dbl v=rdset(g,n,d); size_t m=d[1]*d[2]; Dbl a(v.begin(),v.begin()+m); for(size_t r=1;r<d[0];r++) for(size_t i=0;i<m;i++) a[i]+=v[r*m+i]; for(double& x : a) x/=d[0]; d.erase(d.begin()); need(H5Ldelete(g,n,H5P_DEFAULT)>=0); wrset(g,n,d,a); }
struct Older { unsigned ver; bool avg, dropped; };
void older(const std::string& path,const std::vector<std::string>& grps,const std::string& xs,const Older& o,const Path3* p,const std::vector<Dbl>& tp,const Dbl& x,const Cfg& c) {
  bool r=seam::rec; seam::rec=false; { hid_t f=H5Fopen(path.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); need(f>=0);
  for(size_t i=0;i<grps.size();i++) { hid_t g=H5Gopen2(f,grps[i].c_str(),H5P_DEFAULT); need(g>=0); need(H5LTset_attribute_uint(g,"basic","nusquids_version_number",&o.ver,1)>=0);
    if(o.dropped) for(const char* n : {"oscillations","tau_regeneration","glashow_resonance","basis","neutrino_sources"}) if((strcmp(n,"oscillations") || c.osc) && (strcmp(n,"basis") || !(c.ba || c.cnst))) need(H5Adelete_by_name(g,"basic",n,H5P_DEFAULT)>=0);
    if(o.ver<=100000) { Old b=old3(p[i]); need(H5Ldelete(g,"body",H5P_DEFAULT)>=0 && H5Ldelete(g,"track",H5P_DEFAULT)>=0); wrset(g,"body",{b.bp.size()},b.bp); need(H5LTset_attribute_uint(g,"body","ID",&b.id,1)>=0); wrset(g,"track",{tp[i].size()},tp[i]); need(H5LTset_attribute_double(g,"track","X",&x[i],1)>=0); }
    H5Gclose(g); }
  if(c.inter && o.ver<101100) { hid_t g=H5Gopen2(f,xs.c_str(),H5P_DEFAULT); need(g>=0); for(const char* n : {"sigmacc","sigmanc","dNdEcc","dNdEnc"}) flatten(g,n); if(o.avg) { average(g,"dNdEtauall"); average(g,"dNdEtaulep"); } need(H5Ldelete(g,"targets",H5P_DEFAULT)>=0); H5Gclose(g); }
  H5Fclose(f); } seam::rec=r; }
// what the tables of an older file mean
Snap averaged(std::shared_ptr<IS> t,size_t ne,bool avg) { IS& s=*t; size_t R=s.dNdE_tau_all.extent(0); if(avg) for(size_t i=0;i<ne;i++) for(size_t j=0;j<ne;j++) { double a=0,b=0; for(size_t r=0;r<R;r++) { a+=s.dNdE_tau_all[r][i][j]; b+=s.dNdE_tau_lep[r][i][j]; } for(size_t r=0;r<R;r++) { s.dNdE_tau_all[r][i][j]=a/R; s.dNdE_tau_lep[r][i][j]=b/R; } } return tables(s,ne); }
void s3() {
  begin(false); skipsurface=true; disk_put("/simfs//astro/bs05_agsop.dat",SUN,strlen(SUN)); Cfg c; int kind=choose(5)==4?2:choose(4)?1:0; gen(c,kind); c.src=false; c.per=false; tell(c); auto l=library(false,c.a); static const unsigned V[]={100000,100000,100001,101000,101099,90000}; Older o; o.ver=V[choose(6)]; o.avg=choose(2); o.dropped=choose(2);
  std::unique_ptr<T> u, x; std::unique_ptr<Atm> ua, xa; Path3 p; gen3(p); std::vector<Path3> ps; std::vector<std::string> grps; std::vector<Dbl> tp; Dbl xs; std::string grp="/", xsg; Snap s, now; bool ref=choose(2), done=choose(2);
  describe("version %u%s%s\n",o.ver,o.avg && c.inter?", tau spectra averaged over the polarization":"",o.dropped?", without the later settings":""); probe(o.ver<=100000?"up to 1.0.0":"between 1.0.0 and 1.11.0");
  if(kind==2) { describe("zenith angles\n"); ua.reset(freshAtm(c,l,nullptr)); if(done) ua->EvolveState(); s=whole(*ua,c); ua->WriteStateHDF5("/simfs/old.h5"); xsg="/crosssections"; for(int i=0;i<c.nz;i++) { grps.push_back("/costh_"+std::to_string(c.cz[i])); Path3 q; q.kind=7; ps.push_back(q); auto& n=ua->GetnuSQuIDS()[i]; tp.push_back({n.GetTrack()->GetInitialX(),n.GetTrack()->GetFinalX(),std::acos(c.cz[i])}); xs.push_back(n.GetTrack()->GetX()); } }
  else { describe("%s\n",path3(p)); Pair3 q=make3(p); u.reset(fresh(c,l)); apply(*u,c); u->Set_Body(q.b); u->Set_Track(q.t); state(*u,c); if(done) u->EvolveState(); u->remark=5; s=whole(*u,c); grp=GRP[choose(4)]; grps={grp}; ps={p}; bool own=choose(3)==2; xsg=own?"/xs":(grp=="/"?"":grp)+"/crosssections"; u->WriteStateHDF5("/simfs/old.h5",grp,true,own?"xs":""); 
    Dbl v{q.t->GetInitialX(),q.t->GetFinalX()}; if(p.kind==4) v.push_back((p.b+500)*U.km); if(p.kind==6) v.push_back((690000+p.b)*U.km); if(p.kind==7) v.push_back(std::acos(p.cz)); tp={v}; xs={q.t->GetX()}; if(!own) xsg.insert(0,"="); }
  std::string at=xsg[0]=='='?"":xsg.substr(1); if(xsg[0]=='=') xsg.erase(0,1);
  Snap tab; if(c.inter) { auto t=kind==2?[&]{ ua->GetnuSQuIDS()[0].InitializeInteractions(); return std::const_pointer_cast<IS>(std::shared_ptr<const IS>(ua->GetnuSQuIDS()[0].GetInteractionStructure())); }():[&]{ u->InitializeInteractions(); return std::const_pointer_cast<IS>(std::shared_ptr<const IS>(u->GetInteractionStructure())); }(); tab=averaged(std::make_shared<IS>(*t),c.ne,o.avg && o.ver<101100); }
  older("/simfs/old.h5",grps,xsg,o,ps.data(),tp,xs,c); std::string file=disk_get("/simfs/old.h5"); int h0=handles();
  auto settle=[&](T& n) { unsaved(n,c); if(o.dropped) { if(c.inter) { n.Set_GlashowResonance(c.gr); n.Set_TauRegeneration(c.tau); } } };
  // later versions and files which make no sense are refused
  if(choose(4)==3) { Older bad=o; int w=choose(2); const char* g=grps[0].c_str(); bool r=seam::rec; seam::rec=false; hid_t f=H5Fopen("/simfs/old.h5",H5F_ACC_RDWR,H5P_DEFAULT); hid_t gg=H5Gopen2(f,g,H5P_DEFAULT); if(w || o.ver>100000) { w=1; bool sq=choose(2); unsigned v=(sq?SQUIDS_VERSION:NUSQUIDS_VERSION)+1+choose(1000); need(H5LTset_attribute_uint(gg,"basic",sq?"squids_version_number":"nusquids_version_number",&v,1)>=0); } else { unsigned id=choose(2)?0:8+choose(50); need(H5LTset_attribute_uint(gg,"body","ID",&id,1)>=0); } H5Gclose(gg); H5Fclose(f); seam::rec=r; probe(w?"later version":"unknown body");
    bool t=false; try { if(kind==2) Atm q("/simfs/old.h5"); else { T q; q.ReadStateHDF5("/simfs/old.h5",grp,at); } } catch(std::exception&) { t=true; } if(!t) fail("wrong-version",w?"a file of a later version was restored":"a file with an unknown body was restored"); if(handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0); disk_put("/simfs/old.h5",file.data(),file.size()); }
  int w=choose(3); if(o.dropped && w==2) w=1; describe("restore %s\n",w==0?"with the constructor":w==1?"into a new object":"into a used object"); if(w && kind==2) xa.reset(w==1?freshAtm(c,l,nullptr):[&]{ Cfg d; gen(d,2); return freshAtm(d,library(d.per,d.a),nullptr); }()); else if(w) x.reset(w==1?new T:other());
  auto rd=[&]{ if(kind==2) { if(xa) xa->ReadStateHDF5("/simfs/old.h5"); else xa.reset(new Atm("/simfs/old.h5")); } else if(x || !at.empty()) { std::unique_ptr<T> y; T* q=x.get(); if(!q) { y.reset(new T); q=y.get(); } q->ReadStateHDF5("/simfs/old.h5",grp,at); if(y) x=std::move(y); } else x.reset(new T("/simfs/old.h5",grp)); };
  uint64_t i0=io(), r0=seam::refusals; bool threw=failed(true,ref,rd,"restoring"); disk_heal(); if(io()==i0 && (uint64_t)seam::refusals==r0 && handles()!=h0) fail("handles","%d objects of the HDF5 library are left open",handles()-h0); if(threw) rd();
  if(disk_get("/simfs/old.h5")!=file) fail("state-destroyed","restoring changed the file");
  auto check=[&]{ if(kind==2) now=whole(*xa,c); else { now=whole(*x,c); if(w && x->remark!=5) fail("user-part","the user's part of a state came back as %d instead of 5",x->remark); } equal(s,now,1e-9,"old-format-differs","the state of a file of an earlier version is not the one which was saved"); if(c.inter) { Snap t; if(kind==2) { xa->GetnuSQuIDS()[0].InitializeInteractions(); t=tables(*xa->GetnuSQuIDS()[0].GetInteractionStructure(),c.ne); } else t=tables(*x,c); equal(tab,t,-1e-12,"old-format-differs","the cross sections of a file of an earlier version are not the ones which were saved"); } }; check();
  if(choose(2)) { int m=4+choose(10), c0=seam::calls; if(!xa && !x) fail("harness","nothing restored"); rd(); int total=seam::calls-c0; probe("one call refused after the other"); for(int i=0;i<m;i++) { int k=choose(total); bool t=false; seam::nth=k; try { rd(); } catch(std::exception&) { t=true; } seam::nth=-1; event("refused",k); if(t) continue; describe("call %d was refused (%s) without failure\n",k,seam::last_refused); check(); } rd(); check(); }
  // and the evolution goes on from there
  bool edge=false; if(kind==2) for(int i=0;i<c.nz;i++) edge|= xa->GetnuSQuIDS()[i].GetTrack()->GetFinalX()!=ua->GetnuSQuIDS()[i].GetTrack()->GetFinalX(); // it matters on which side of the surface the path ends
  if(!(o.avg && c.tau) && !(edge && o.ver<=100000)) { if(kind==2) { for(auto& q : xa->GetnuSQuIDS()) settle(q); if(done) { state(*ua,c); state(*xa,c); } ua->EvolveState(); xa->EvolveState(); s=whole(*ua,c); now=whole(*xa,c); } else { settle(*x); if(done) { Path3 q; gen3(q); Pair3 z=make3(q); describe("further: %s\n",path3(q)); u->Set_Body(z.b); u->Set_Track(z.t); z=make3(q); x->Set_Body(z.b); x->Set_Track(z.t); } u->EvolveState(); x->EvolveState(); s=whole(*u,c); now=whole(*x,c); } equal(s,now,1e-8,"old-format-differs","continuing from the state of an earlier version gives another result"); probe("evolved further"); }
  nontrivial(); check_heap();
}
