// H01, H02, H03: array and attribute storage in HDF5 files (include/nuSQuIDS/tools.h, src/tools.cpp), on a simulated disk that
// fails and with an HDF5 library whose calls can be refused.
#include <nuSQuIDS/tools.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <vector>
#include "../sim/sim.h"
#include "h5seam.h"
using namespace sim;
using nusquids::marray;
namespace {
const char* NAMES[]={"a","beta","long name with spaces","d4","e"};
const char* PATH="/simfs/file.h5";
enum How { DONE, THREW };
struct Model { bool present=false, undefined=false; int type=0, rank=0; size_t ext[4]={0,0,0,0}; std::vector<double> v; };
uint64_t io() { return fired(F_OPEN)+fired(F_READ)+fired(F_WRITE)+fired(F_META)+fired(F_CLOSE); }
template<typename T> T conv(double d) { return (T)d; }
const char* TN[]={"int","unsigned","float","double","double as float","int as double"};
size_t count(const Model& m) { size_t n=1; for(int i=0;i<m.rank;i++) n*=m.ext[i]; return n; }

// ---- one attempt at storing / loading, with faults inside the helper only -----------------------
int leak_base, leak_closefail; const char* leak_by="";
void before() { leak_base=seam::nobj; leak_closefail=seam::close_failures; }
int leaked() { int n=seam::still_open(leak_base,&leak_by)-(seam::close_failures-leak_closefail); return n>0?n:0; }
template<typename F> How attempt(bool refusals,F f) { How h=DONE; before(); seam::refuse_on=refusals; faults_on(true);
  try { f(); faults_on(false); } catch(std::exception& e) { faults_on(false); h=THREW; describe("    failed: %.80s\n",e.what()); }
  seam::refuse_on=false; return h; }
template<typename S,typename D,unsigned R> How store(hid_t loc,const char* name,const Model& m,unsigned comp,bool ref) {
  std::array<size_t,R> e; for(unsigned i=0;i<R;i++) e[i]=m.ext[i]; marray<S,R> a(e); size_t k=0; for(auto& x : a) x=conv<S>(m.v[k++]);
  How h=attempt(ref,[&]{ nusquids::writeArrayH5<D>(loc,name,a,comp); });
  k=0; for(auto& x : a) if(!(x==conv<S>(m.v[k]) || x!=x)) fail("source-changed","storing changed the array being stored"), k++; else k++; return h; }
template<unsigned R> How storeT(hid_t loc,const char* n,const Model& m,unsigned c,bool ref) { switch(m.type) { case 0: return store<int,int,R>(loc,n,m,c,ref); case 1: return store<unsigned,unsigned,R>(loc,n,m,c,ref); case 2: return store<float,float,R>(loc,n,m,c,ref); case 3: return store<double,double,R>(loc,n,m,c,ref);
  case 4: return store<double,float,R>(loc,n,m,c,ref); default: return store<int,double,R>(loc,n,m,c,ref); } }
How storeM(hid_t loc,const char* n,const Model& m,unsigned c,bool ref) { switch(m.rank) { case 1: return storeT<1>(loc,n,m,c,ref); case 2: return storeT<2>(loc,n,m,c,ref); case 3: return storeT<3>(loc,n,m,c,ref); default: return storeT<4>(loc,n,m,c,ref); } }
template<typename T,unsigned R> How load(hid_t loc,const char* name,const Model& m,bool ref,bool check) {
  std::array<size_t,R> e; size_t tot=1; for(unsigned i=0;i<R;i++) { e[i]=choose(3)?1+choose(4):m.ext[i<(unsigned)m.rank?i:0]; if(tot*e[i]>5000) e[i]=1; tot*=e[i]; } marray<T,R> a; if(choose(2)) { a.resize(e); for(auto& x : a) x=(T)77; }
  How h=attempt(ref,[&]{ nusquids::readArrayH5(loc,name,a); });
  if(h==DONE && check) {
    if(!m.present) fail("missing-loaded","loading an array which is not in the file returned normally");
    if((int)R!=m.rank) fail("rank-ignored","an array of rank %d was loaded into an array of rank %u",m.rank,R);
    if(!m.undefined) { for(unsigned i=0;i<R;i++) if(a.extent(i)!=m.ext[i]) fail("wrong-shape","dimension %u: stored %zu, loaded %zu",i,m.ext[i],a.extent(i));
      size_t k=0; for(auto& x : a) { T w=conv<T>(m.v[k]); if(!(x==w || (x!=x && w!=w))) fail("wrong-values","element %zu: stored %.17g, loaded %.17g",k,(double)w,(double)x); k++; } } }
  return h; }
template<unsigned R> How loadT(hid_t loc,const char* n,const Model& m,int t,bool ref,bool check) { switch(t) { case 0: return load<int,R>(loc,n,m,ref,check); case 1: return load<unsigned,R>(loc,n,m,ref,check); case 2: return load<float,R>(loc,n,m,ref,check); default: return load<double,R>(loc,n,m,ref,check); } }
How loadM(hid_t loc,const char* n,const Model& m,int rank,int t,bool ref,bool check) { switch(rank) { case 1: return loadT<1>(loc,n,m,t,ref,check); case 2: return loadT<2>(loc,n,m,t,ref,check); case 3: return loadT<3>(loc,n,m,t,ref,check); default: return loadT<4>(loc,n,m,t,ref,check); } }
int loadtype(int t) { static const int dt[]={0,1,2,3,2,0}; int k=dt[t]; if(choose(3)==2) k=3; return k; } // as stored, or as double
void shape(Model& m) { m.type=choose(6); m.rank=1+choose(4); bool big=choose(25)==24; size_t tot=1;
  for(int i=0;i<m.rank;i++) { m.ext[i]=1+choose(big?(m.rank==1?20000:m.rank==2?130:26):5); if(tot*m.ext[i]>20000) m.ext[i]=1; tot*=m.ext[i]; }
  if(big && m.rank>1 && choose(3)==2) { for(int i=0;i<m.rank;i++) m.ext[i]=1; m.ext[0]=2; m.ext[m.rank-1]=9500; tot=19000; probe("rows longer than a chunk"); }
  if(big) probe("large array");
  m.v.resize(tot); int base=(int)choose(1000), step=1+choose(9); for(size_t i=0;i<tot;i++) { double v=(double)((long)i*step%60000+base); 
    switch(m.type) { case 0: case 5: v=(i&1)?-v:v; break; case 1: break; case 2: case 4: v=v/8*((i&1)?-1:1); break; default: v= i<20 && choose(4)==3 ? real(-1e300,1e300) : v/7.0; }
    m.v[i]=v; }
  if(m.type==3 && choose(6)==5) { m.v[0]=std::numeric_limits<double>::quiet_NaN(); m.v[tot-1]=-std::numeric_limits<double>::infinity(); } }
struct File { hid_t id=-1; bool ro=false; bool open(bool create,bool readonly) { FaultsOff off; disk_heal(); id= create?H5Fcreate(PATH,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT):H5Fopen(PATH,readonly?H5F_ACC_RDONLY:H5F_ACC_RDWR,H5P_DEFAULT); ro=readonly; return id>=0; }
  bool close(bool faults) { if(id<0) return true; faults_on(faults); herr_t r=H5Fclose(id); faults_on(false); id=-1; return r>=0; } };
void start() { faults_on(false); race_detection(false); disk_benign(choose(3)==2); seam::begin(); }

void h1() {
  start(); Model m[5]; File f; bool damaged=false; int sessions=1+choose(3); bool ref=choose(2); bool lim=choose(6)==5;
  for(int s=0;s<=sessions && !damaged;s++) {
    bool final=s==sessions; 
    if(!f.open(s==0,final)) fail("closed-file-unreadable","a file which was closed successfully cannot be opened again");
    describe("session %d%s\n",s,final?" (everything is loaded)":""); if(lim && s==0) { disk_limit(4000+choose(30000)); describe("  nearly full disk\n"); }
    uint64_t w0=fired_total(); bool sub=!final && choose(4)==3; (void)sub;
    int ops=final?5:2+choose(6);
    for(int o=0;o<ops && !damaged;o++) { int k=final?o:(int)choose(5); Model& cur=m[k]; uint64_t i0=io(),r0=seam::refusals,q0=fired_total(); 
      bool st=!final && choose(5)<3;
      if(st) { Model nw; shape(nw); unsigned comp=choose(3)==2?1+choose(9):0; 
        describe("  store %s: rank %d, %zu elements of %s, compression %u%s\n",NAMES[k],nw.rank,nw.v.size(),TN[nw.type],comp,cur.present?", name taken":"");
        How h=storeM(f.id,NAMES[k],nw,comp,ref); bool clean=fired_total()==q0;
        if(h==DONE) { if(cur.present && !cur.undefined) fail("overwrite-ignored","storing under a name which is taken returned normally"); nw.present=true; cur=nw; }
        else { if(fired_total()==w0 && !cur.present && !lim) fail("spurious-failure","storing failed although nothing was wrong"); probe("store reported failure");
          if(io()!=i0 || lim) damaged=true; else if(!clean && !cur.present) { cur.present=true; cur.undefined=true; cur.rank=nw.rank; cur.type=nw.type; for(int i=0;i<4;i++) cur.ext[i]=nw.ext[i]; cur.v=nw.v; } } 
      } else { int t=cur.present?loadtype(cur.type):3, rk= cur.present && choose(final?1:4)<3?cur.rank:1+(int)choose(4);
        describe("  load %s into rank %d%s\n",NAMES[k],rk,cur.present?"":" (not there)");
        How h=loadM(f.id,NAMES[k],cur,rk,t,ref,true); bool clean=fired_total()==w0; (void)r0;
        if(h==THREW && clean && cur.present && !cur.undefined && rk==cur.rank) fail("spurious-failure","loading failed although nothing was wrong"); if(h==THREW) probe("load reported failure"); if(h==DONE) probe("loaded"); }
    }
    uint64_t i0=io(); bool ok=f.close(!damaged); if(!ok) { damaged=true; probe("close reported failure"); } (void)i0;
  }
  nontrivial();
}

// ---- attributes ------------------------------------------------------------------------------------
struct Att { bool present=false, undefined=false; int type=0; double num=0; std::string str; };
std::string text() { int c=choose(8); if(c==0) return "x"; if(c==1) { probe("empty text"); return ""; } if(c==2) return std::string("nul\0inside",10); if(c==3) return "trailing  "; if(c==4 && choose(4)==3) { probe("long text"); return std::string(60000+choose(8000),'q'); } std::string s; int n=1+choose(300); for(int i=0;i<n;i++) s+=(char)(1+(i*37+c*11)%255); return s; }
double number(int t) { switch(t) { case 0: return choose(4)==3?-2147483648.0:(double)choose(100000)-50000; case 1: return choose(4)==3?4294967295.0:(double)choose(100000); case 2: return (float)real(-1e30,1e30); default: return choose(6)==5?std::numeric_limits<double>::infinity():real(-1e300,1e300); } }
const char* AT[]={"int","unsigned","float","double","text"};
How addA(hid_t o,const char* n,const Att& a,bool ref) { switch(a.type) { 
  case 0: { int v=(int)a.num; return attempt(ref,[&]{ nusquids::addH5Attribute(o,n,v); }); } case 1: { unsigned v=(unsigned)a.num; return attempt(ref,[&]{ nusquids::addH5Attribute(o,n,v); }); }
  case 2: { float v=(float)a.num; return attempt(ref,[&]{ nusquids::addH5Attribute(o,n,v); }); } case 3: { double v=a.num; return attempt(ref,[&]{ nusquids::addH5Attribute(o,n,v); }); }
  default: { std::string v=a.str; return attempt(ref,[&]{ nusquids::addH5Attribute<std::string>(o,n,v); }); } } }
template<typename T> How readN(hid_t o,const char* n,const Att& a,bool ref) { T v=(T)55; How h=attempt(ref,[&]{ nusquids::readH5Attribute(o,n,v); });
  if(h==DONE) { if(!a.present) fail("missing-loaded","an attribute which does not exist was read"); int t=std::is_same<T,int>::value?0:std::is_same<T,unsigned>::value?1:std::is_same<T,float>::value?2:3; if(t!=a.type) fail("type-ignored","an attribute of type %s was read as %s",AT[a.type],AT[t]);
    if(!a.undefined && !(v==(T)a.num)) fail("wrong-value","stored %.17g, read %.17g",a.num,(double)v); }
  else if(!(v==(T)55) && !(a.present && a.type<4 && v==(T)a.num)) fail("wrong-value","reading failed but the destination received %.17g",(double)v);
  return h; }
How readA(hid_t o,const char* n,const Att& a,int t,bool ref) { switch(t) { case 0: return readN<int>(o,n,a,ref); case 1: return readN<unsigned>(o,n,a,ref); case 2: return readN<float>(o,n,a,ref); case 3: return readN<double>(o,n,a,ref); 
  default: { std::string v="before"; How h=attempt(ref,[&]{ nusquids::readH5Attribute<std::string>(o,n,v); });
    if(h==DONE) { if(!a.present) fail("missing-loaded","an attribute which does not exist was read"); if(a.type!=4) fail("type-ignored","an attribute of type %s was read as text",AT[a.type]); 
      if(!a.undefined && v!=a.str) fail("wrong-value","stored text of length %zu, read length %zu",a.str.size(),v.size()); }
    else if(v!="before" && v!="" && !(a.present && a.type==4 && v==a.str)) fail("wrong-value","reading failed but the destination received a text of length %zu",v.size());
    return h; } } }
const char* ANAMES[]={"v","units","a b","z"};
void h2() {
  start(); Att m[3][4]; File f; bool damaged=false, ref=choose(2); int sessions=1+choose(3);
  for(int s=0;s<=sessions && !damaged;s++) { bool final=s==sessions, ro=final || (s>0 && choose(3)==2);
    if(!f.open(s==0,ro)) fail("closed-file-unreadable","a file which was closed successfully cannot be opened again");
    uint64_t w0=fired_total(); describe("session %d%s\n",s,ro?" (read only)":"");
    hid_t obj[3]; obj[0]=f.id; if(s==0) { FaultsOff o; obj[1]=H5Gcreate2(f.id,"g",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); hid_t sp=H5Screate(H5S_SCALAR); obj[2]=H5Dcreate2(f.id,"d",H5T_NATIVE_INT,sp,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Sclose(sp); } else { FaultsOff o; obj[1]=H5Gopen2(f.id,"g",H5P_DEFAULT); obj[2]=H5Dopen2(f.id,"d",H5P_DEFAULT); }
    if(obj[1]<0||obj[2]<0) fail("closed-file-unreadable","objects of a file which was closed successfully cannot be opened again");
    int ops=final?12:2+choose(8);
    for(int o=0;o<ops && !damaged;o++) { int k=final?o/4:(int)choose(3), n=final?o%4:(int)choose(4); Att& cur=m[k][n]; uint64_t i0=io(),q0=fired_total(); 
      if(!final && choose(2)) { Att nw; nw.type=choose(5); if(nw.type==4) nw.str=text(); else nw.num=number(nw.type); 
        describe("  attach %s %s to object %d%s\n",AT[nw.type],ANAMES[n],k,cur.present?", name taken":"");
        How h=addA(obj[k],ANAMES[n],nw,ref); bool clean=fired_total()==q0;
        if(h==DONE) { if(ro) fail("failure-swallowed","attaching to a file opened for reading returned normally"); if(cur.present && !cur.undefined) fail("failure-swallowed","attaching under a name which is taken returned normally"); nw.present=true; cur=nw; }
        else { probe("attach reported failure"); if(cur.present) probe("name clash reported"); if(ro) probe("read-only object reported"); if(fired_total()==w0 && !ro && !cur.present && !(nw.type==4 && nw.str.size()>60000)) fail("spurious-failure","attaching failed although nothing was wrong");
          if(io()!=i0) damaged=true; else if(!clean && !cur.present && !ro) { nw.present=nw.undefined=true; cur=nw; } }
      } else { int t=cur.present && choose(final?1:4)<3?cur.type:(int)choose(5);
        describe("  read %s of object %d as %s%s\n",ANAMES[n],k,AT[t],cur.present?"":" (not there)"); 
        if(cur.undefined) continue; How h=readA(obj[k],ANAMES[n],cur,t,ref); if(h==THREW && fired_total()==w0 && cur.present && t==cur.type) fail("spurious-failure","reading failed although nothing was wrong"); if(h==THREW) probe("read reported failure"); }
    }
    bool ok=H5Gclose(obj[1])>=0; if(H5Dclose(obj[2])<0) ok=false; if(!f.close(!damaged)) ok=false; if(!ok) damaged=true;
  }
  nontrivial();
}

// ---- nothing left open; handles -----------------------------------------------------------------------
struct Own { hid_t id; int closed; bool held; }; Own own[64]; int nown; int stray;
herr_t closer(hid_t id) { for(int i=0;i<nown;i++) if(own[i].id==id) { own[i].closed++; if(own[i].closed>1) stray++; return 0; } stray++; return -1; }
void handles() {
  typedef nusquids::H5Handle H; nown=0; stray=0; H* s[4]={new H,new H,new H,new H}; int ops=3+choose(14);
  for(int o=0;o<ops;o++) { int a=choose(4), b=choose(4); int what=choose(6); describe("  handle op %d on %d,%d\n",what,a,b);
    hid_t ia=s[a]->get(), ib=s[b]->get();
    switch(what) {
      case 0: case 1: { own[nown].id=1000+nown; own[nown].closed=0; nown++; *s[a]=H(own[nown-1].id,closer,"make"); if(s[a]->get()!=own[nown-1].id) fail("handle-wrong","a handle does not hold what was assigned to it"); break; }
      case 2: { *s[a]=std::move(*s[b]); if(s[a]->get()!=ib) fail("handle-wrong","a handle does not hold what was moved into it"); break; }
      case 3: { H t(std::move(*s[b])); if(t.get()!=ib) fail("handle-wrong","a handle does not hold what was moved into it"); if(a!=b) { *s[a]=std::move(t); if(s[a]->get()!=ib) fail("handle-wrong","a handle does not hold what was moved into it"); } break; }
      case 4: { bool threw=false; try { H t(-1,closer,choose(2)?"open":nullptr); } catch(std::runtime_error&) { threw=true; } if(!threw) fail("handle-invalid","a handle was made of a failed open"); probe("failed open refused"); break; }
      default: delete s[a]; s[a]=new H; if(ia>=0) for(int i=0;i<nown;i++) if(own[i].id==ia && own[i].closed!=1) fail("handle-not-closed","a destroyed handle closed what it owned %d times",own[i].closed); break; }
    for(int i=0;i<4;i++) { hid_t id=s[i]->get(); if(id>=0) for(int k=0;k<nown;k++) if(own[k].id==id && own[k].closed) fail("closed-while-owned","what a handle owns was closed while it owned it"); }
  }
  for(int i=0;i<4;i++) delete s[i];
  for(int k=0;k<nown;k++) if(own[k].closed!=1) fail(own[k].closed?"closed-twice":"handle-not-closed","an owned object was closed %d times",own[k].closed);
  if(stray) fail("closed-other","something which is not owned was closed");
}
void files() {
  typedef nusquids::H5File F; F* s[3]={nullptr,nullptr,nullptr}; int ops=2+choose(8); int c=0; char p[40]; int bad0=seam::bad_close;
  for(int o=0;o<ops;o++) { int a=choose(3), b=choose(3), what=choose(5); describe("  file op %d on %d,%d\n",what,a,b);
    switch(what) {
      case 0: case 1: if(!s[a]) { snprintf(p,sizeof p,"/simfs/h%d.h5",c++); s[a]=new F(H5Fcreate(p,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); } else { snprintf(p,sizeof p,"/simfs/h%d.h5",c++); *s[a]=F(H5Fcreate(p,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); } if(H5Iis_valid(*s[a])<=0) fail("handle-wrong","a file handle does not hold what was assigned to it"); break;
      case 2: if(s[a] && s[b] && a!=b) { hid_t ib=*s[b]; *s[a]=std::move(*s[b]); if((hid_t)*s[a]!=ib) fail("handle-wrong","a file handle does not hold what was moved into it"); if(ib>0 && H5Iis_valid(ib)<=0) fail("closed-while-owned","a file was closed while owned"); } break;
      case 3: if(s[b] && !s[a]) { hid_t ib=*s[b]; s[a]=new F(std::move(*s[b])); if((hid_t)*s[a]!=ib) fail("handle-wrong","a file handle does not hold what was moved into it"); delete s[b]; s[b]=nullptr; if(ib>0 && H5Iis_valid(ib)<=0) fail("closed-while-owned","a file was closed when the handle it was moved from was destroyed"); } break;
      default: if(!s[a]) { s[a]=new F(H5Fopen("/simfs/none.h5",H5F_ACC_RDONLY,H5P_DEFAULT)); if((hid_t)*s[a]>=0) fail("handle-wrong","a file which does not exist was opened"); } else { hid_t ia=*s[a]; delete s[a]; s[a]=nullptr; if(ia>0 && H5Iis_valid(ia)>0) fail("handle-not-closed","a destroyed handle left its file open"); } }
  }
  for(int i=0;i<3;i++) delete s[i];
  if(seam::bad_close!=bad0) fail("closed-other","closing was attempted on something which is not an open file");
  if(disk_open_fds()) fail("left-open","a file is still open after its handles were destroyed");
}
void h3() {
  start(); int kind=choose(5); if(kind==3) { handles(); nontrivial(); return; } if(kind==4) { disk_benign(false); files(); nontrivial(); return; }
  bool ref=choose(3)!=2; Model m[5]; Att at[4]; File f; if(!f.open(true,false)) return; bool reopened=choose(2);
  int ops=2+choose(8); bool damaged=false;
  for(int o=0;o<ops;o++) { int k=choose(5), n=choose(4); How h; uint64_t i0=io(); (void)i0;
    if(o==ops/2 && reopened && !damaged) { if(!f.close(false)) break; if(!f.open(false,choose(2))) break; describe("  reopened\n"); }
    switch(choose(4)) {
      case 0: { Model nw; shape(nw); unsigned comp=choose(3)==2?1+choose(9):0; describe("  store %s: rank %d, compression %u%s\n",NAMES[k],nw.rank,comp,m[k].present?", name taken":""); h=storeM(f.id,NAMES[k],nw,comp,ref); if(h==DONE) { nw.present=true; m[k]=nw; } break; }
      case 1: { int rk=m[k].present && choose(3)?m[k].rank:1+(int)choose(4); describe("  load %s into rank %d%s\n",NAMES[k],rk,m[k].present?rk==m[k].rank?"":" (another rank)":" (not there)"); if(m[k].present && rk!=m[k].rank) probe("other rank"); Model none; if(!m[k].present) { none.rank=1; none.ext[0]=1; } h=loadM(f.id,NAMES[k],m[k].present?m[k]:none,rk,3,ref,false); break; }
      case 2: { Att nw; nw.type=choose(5); if(nw.type==4) nw.str=text(); else nw.num=number(nw.type); describe("  attach %s %s%s\n",AT[nw.type],ANAMES[n],at[n].present?", name taken":""); h=addA(f.id,ANAMES[n],nw,ref); if(h==DONE) { nw.present=true; at[n]=nw; } break; }
      default: { int t=at[n].present && choose(3)?at[n].type:(int)choose(5); describe("  read %s as %s%s\n",ANAMES[n],AT[t],at[n].present?"":" (not there)"); Att u=at[n]; 
        switch(t) { case 0: { int v; h=attempt(ref,[&]{ nusquids::readH5Attribute(f.id,ANAMES[n],v); }); break; } case 1: { unsigned v; h=attempt(ref,[&]{ nusquids::readH5Attribute(f.id,ANAMES[n],v); }); break; } case 2: { float v; h=attempt(ref,[&]{ nusquids::readH5Attribute(f.id,ANAMES[n],v); }); break; }
          case 3: { double v; h=attempt(ref,[&]{ nusquids::readH5Attribute(f.id,ANAMES[n],v); }); break; } default: { std::string v; h=attempt(ref,[&]{ nusquids::readH5Attribute<std::string>(f.id,ANAMES[n],v); }); } } } }
    if(h==THREW) { probe("operation failed"); if(io()!=i0) damaged=true; }
    int n2=leaked(); if(n2) fail("left-open","%d object%s left open by an operation which %s (made by %s)",n2,n2>1?"s":"",h==DONE?"returned":"failed",leak_by);
    if(seam::double_close) fail("closed-twice","an object was closed twice");
  }
  disk_heal(); bool ok=f.close(false); if(ok && !io() && !seam::close_failures && disk_open_fds()) fail("left-open","the file is still open after it was closed");
  nontrivial();
}
}
int main(int argc,char** argv) {
  H5open(); H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr);
  unsigned io=bit(F_OPEN)|bit(F_READ)|bit(F_WRITE)|bit(F_META)|bit(F_CLOSE)|bit(F_ALLOC)|bit(F_USER);
  static const Scenario s[]={ {"H01","arrays",h1,1,io,false,8000000}, {"H02","attributes",h2,1,io,false,8000000}, {"H03","open-objects",h3,1,io,false,8000000} };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
