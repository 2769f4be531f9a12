// T01, T02: text tables (quickwrite / quickread of src/tools.cpp) on a simulated disk that fails, fills up, and splits or
// interrupts transfers.
#include <nuSQuIDS/tools.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include "../sim/sim.h"
using namespace sim;
using nusquids::marray;
namespace {
const int MAXV=6000;
struct Tab { size_t r,c; double v[MAXV]; };
double value() {
  switch(choose(8)) { case 0: return (double)choose(10); case 1: return -(double)choose(1000)/7.0; case 2: return real(0,1); case 3: return real(-1,1)*1e-280; case 4: return real(1,9.9)*1e299; case 5: return real(0,1)*1e-310; case 6: return 1.0/(1+(double)choose(1000)); default: return real(-1e6,1e6); } }
double rounded(double v) { char b[64]; snprintf(b,sizeof b,"%.15g",v); return strtod(b,nullptr); }
void gen(Tab& t,bool wide) { 
  static const size_t rs[]={1,2,3,5,17,40}; t.r=rs[choose(6)]; t.c=1+choose(6); if(wide && choose(4)==3) { t.r=1+choose(4); t.c=100+choose(200); } if(wide && choose(6)==5) t.r=choose(3)?200:1500,t.c=1+choose(6);
  if(t.r*t.c>MAXV) t.r=MAXV/t.c; for(size_t i=0;i<t.r*t.c;i++) t.v[i]=i<64?value():(double)i*1.37-20; }
bool same(double a,double b) { return memcmp(&a,&b,sizeof a)==0 || a==b; }
// independent reader of what is on the disk: rows of blank separated numbers, blank lines skipped
bool parse(const std::string& s,Tab& t) { t.r=t.c=0; size_t n=0; const char* p=s.c_str(); const char* e=p+s.size(); 
  while(p<e) { size_t c=0; while(p<e && *p!='\n') { if(*p==' '||*p=='\t'||*p=='\r') { p++; continue; } char* q; double v=strtod(p,&q); if(q==p) return false; if(n>=MAXV) return false; t.v[n++]=v; c++; p=q; } if(p<e) p++; if(c) { if(t.r && c!=t.c) return false; t.c=c; t.r++; } }
  return true; }
enum How { DONE, THREW };
size_t base_fds;

void t1() {
  faults_on(false); race_detection(false); disk_benign(choose(2)); Tab t,got; const char* path="/simfs/table.txt"; bool before=choose(3)==2; 
  if(before) { std::string old; for(int i=0;i<(int)(1+choose(4))*300;i++) old+="9 8 7 6\n"; disk_put(path,old.data(),old.size()); }
  gen(t,true); describe("table of %zux%zu%s\n",t.r,t.c,before?", over an existing file":"");
  marray<double,2> a{t.r,t.c}; for(size_t i=0;i<t.r;i++) for(size_t j=0;j<t.c;j++) a[i][j]=t.v[i*t.c+j];
  int mode=(int)choose(4); // 2: small disk, 3: not writable
  if(mode==2) { disk_limit(choose(20000)); describe("disk nearly full\n"); } 
  if(mode==3 && before) { disk_readonly(path,true); describe("not writable\n"); }
  for(int attempt=0;attempt<2;attempt++) {
    How h=DONE; uint64_t w0=fired_total(), io0=fired(F_CLOSE)+fired(F_WRITE)+fired(F_OPEN);
    faults_on(true);
    try { nusquids::quickwrite(path,a); faults_on(false); } catch(std::exception& e) { faults_on(false); h=THREW; }
    uint64_t f=fired_total()-w0; describe("write: %s\n",h==DONE?"returned":"failed"); if(h==THREW) probe("write reported failure");
    if(disk_open_fds()) fail("file-left-open","the file is still open after writing");
    if(h==DONE) {
      std::string s=disk_get(path); if(!parse(s,got)) fail("incomplete","writing returned normally but the file does not hold a table (%zu bytes)",s.size());
      if(got.r!=t.r || got.c!=t.c) fail("incomplete","writing a %zux%zu table returned normally but the file holds %zux%zu",t.r,t.c,got.r,got.c);
      for(size_t i=0;i<t.r*t.c;i++) if(!same(got.v[i],rounded(t.v[i]))) fail("wrong-contents","value %zu was %.17g but the file holds %.17g",i,t.v[i],got.v[i]);
      if(fired(F_CLOSE)+fired(F_WRITE)+fired(F_OPEN)>io0) { fail("failure-swallowed","a disk operation failed but writing returned normally"); }
      marray<double,2> b=nusquids::quickread(path); // no faults now
      if(b.extent(0)!=t.r||b.extent(1)!=t.c) fail("wrong-shape","a %zux%zu table reads back as %zux%zu",t.r,t.c,b.extent(0),b.extent(1));
      for(size_t i=0;i<t.r;i++) for(size_t j=0;j<t.c;j++) if(!same(b[i][j],rounded(t.v[i*t.c+j]))) fail("wrong-contents","element %zu,%zu was %.17g and reads back as %.17g",i,j,t.v[i*t.c+j],b[i][j]);
    } else if(!f && mode!=2 && !(mode==3&&before)) fail("spurious-failure","writing failed although nothing was wrong");
    for(size_t i=0;i<t.r;i++) for(size_t j=0;j<t.c;j++) if(!same(a[i][j],t.v[i*t.c+j])) fail("source-changed","the table itself was changed by writing it");
    if(h==DONE) break;
    disk_heal(); disk_limit(~0ull); disk_readonly(path,false); mode=0; // the retry on a healthy disk
  }
  nontrivial();
}
struct Rd { const char* path; const Tab* want; bool malformed,missing; bool faulty,healthy,two; };
void reader(const Rd& r) {
  char msg[80]=""; How h=DONE; uint64_t w0=0,io0=fired(F_READ)+fired(F_OPEN); marray<double,2>* b=nullptr; typename std::aligned_storage<sizeof(marray<double,2>),alignof(marray<double,2>)>::type st;
  faults_on(r.faulty);
  try { b=new(&st) marray<double,2>(nusquids::quickread(r.path)); faults_on(false); } catch(std::exception& e) { faults_on(false); h=THREW; snprintf(msg,sizeof msg,": %.60s",e.what()); }
  uint64_t f=r.healthy?0:fired_total()-w0; // a failed disk stays failed, for both readers
  if(h==DONE) {
    const Tab& t=*r.want;
    if(r.missing) fail("missing-file-read","reading a file that does not exist returned normally");
    if(r.malformed) fail("ragged-table-read","rows of unequal length were accepted as a %zux%zu table",b->extent(0),b->extent(1));
    if(b->extent(0)!=t.r||b->extent(1)!=t.c) fail("wrong-shape","the file holds a %zux%zu table but %zux%zu was returned%s",t.r,t.c,b->extent(0),b->extent(1),f?" (under a fault)":"");
    for(size_t i=0;i<t.r;i++) for(size_t j=0;j<t.c;j++) if(!same((*b)[i][j],t.v[i*t.c+j])) fail("wrong-contents","element %zu,%zu is %.17g in the file and %.17g in the table",i,j,t.v[i*t.c+j],(*b)[i][j]);
    if(r.faulty && !r.two && fired(F_READ)+fired(F_OPEN)>io0) fail("failure-swallowed","a disk operation failed but reading returned normally");
    typedef marray<double,2> M; b->~M();
  } else { if(f) probe("read reported failure"); if(!f && !r.malformed && !r.missing) fail("spurious-failure","reading failed although nothing was wrong%s",msg); }
}
void build(Tab& t,std::string& s,bool& malformed) {
  gen(t,true); malformed=false; int bad=choose(6)==5 && t.r>1 ? (int)choose((uint32_t)t.r) : -1; if(choose(12)==11) { t.r=0; t.c=0; bad=-1; }
  bool crlf=choose(8)==7; bool lastnl=choose(4)!=3; int blanks=(int)choose(4);
  for(size_t i=0;i<t.r;i++) { if(blanks==1 && choose(4)==3) { s+="\n"; probe("blank line in the middle"); } 
    size_t c=t.c; if((int)i==bad) { malformed=true; c= c>1 && choose(2)?c-1:c+1; }
    for(size_t j=0;j<c;j++) { char b[64]; double v= j<t.c?t.v[i*t.c+j]:1; snprintf(b,sizeof b,"%.15g",v); if(j<t.c) t.v[i*t.c+j]=rounded(v); if(j) s+=choose(8)==7?"\t":" "; s+=b; } if(choose(2)) s+=" ";
    if(crlf) s+="\r"; if(i+1<t.r || lastnl) s+="\n"; }
  if(blanks==2) { s+= lastnl?"\n":"\n\n"; probe("blank line at the end"); } if(blanks==3) s="\n"+s;
}
void t2() {
  faults_on(false); race_detection(false); Tab t; std::string s; bool malformed; disk_benign(false); build(t,s,malformed); const char* path="/simfs/in.txt"; bool missing=choose(12)==11; if(!missing) disk_put(path,s.data(),s.size());
  describe("file of %zu bytes with a %zux%zu table%s%s\n",s.size(),t.r,t.c,malformed?", one row of another length":"",missing?", missing":"");
  disk_benign(choose(2)); bool two=choose(4)==3;
  Rd r={path,&t,malformed,missing,true,false,two};
  if(two) { // another thread reads another file at the same time
    Tab t2; std::string s2; bool m2; bool bn=choose(2); disk_benign(false); build(t2,s2,m2); disk_put("/simfs/other.txt",s2.data(),s2.size()); disk_benign(bn); Rd q={"/simfs/other.txt",&t2,m2,false,false,false};
    describe("a second thread reads a %zux%zu table at the same time\n",t2.r,t2.c); probe("two readers at once");
    std::thread th([&]{ faults_on(false); reader(q); }); reader(r); th.join();
  } else reader(r);
  disk_heal(); Rd again={path,&t,malformed,missing,false,true}; reader(again);
  if(disk_open_fds()) fail("file-left-open","a file is still open after reading");
  nontrivial();
}
}
int main(int argc,char** argv) {
  static const Scenario s[]={ {"T01","write",t1,1,bit(F_OPEN)|bit(F_WRITE)|bit(F_CLOSE)|bit(F_META)|bit(F_ALLOC),false,4000000}, {"T02","read",t2,1,bit(F_OPEN)|bit(F_READ)|bit(F_META)|bit(F_ALLOC),true,4000000} };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
