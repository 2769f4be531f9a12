// M01-M03: histories of operations on multidimensional arrays (include/nuSQuIDS/marray.h) with failing memory and
// failing elements, against a plain row-major reference; M04: the aligned allocator (include/nuSQuIDS/aligned_alloc.h).
#include <cstddef>
#include <cstdint>
#include <cassert>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
#include <iterator>
#include <vector>
#include <nuSQuIDS/marray.h>
#include <nuSQuIDS/aligned_alloc.h>
#include "../sim/sim.h"
using namespace sim;
using nusquids::marray;

namespace {
int MODE;
struct ElemError { int n; };
long live_elems; // constructed and not yet destroyed
const long MOVED=-1;

// An element that knows whether it is alive. K==0: every construction, copy, move and assignment may throw.
// K==1: moves never throw (and leave MOVED behind), everything else may.
// addresses of the live elements, kept outside the elements (a store into a dying object may be optimised away)
const int LT=8192; const void* lt[LT];
int lt_h(const void* p) { size_t x=(size_t)p>>3; x*=0x9E3779B97F4A7C15ull; return (int)(x>>51); }
bool lt_has(const void* p) { for(int i=lt_h(p);lt[i];i=(i+1)%LT) if(lt[i]==p) return true; return false; }
void lt_add(const void* p) { int i=lt_h(p); while(lt[i]) i=(i+1)%LT; lt[i]=p; }
void lt_del(const void* p) { int i=lt_h(p); while(lt[i] && lt[i]!=p) i=(i+1)%LT; if(!lt[i]) return; lt[i]=nullptr; for(int j=(i+1)%LT;lt[j];j=(j+1)%LT) { const void* q=lt[j]; lt[j]=nullptr; lt_add(q); } }
void elem_bad(const char* what) { if(MODE==2) fail("element-lifetime","%s",what); }
template<int K> struct Elem {
  long v; double pad; // as large as a small vector header
  void born() { if(lt_has(this)) elem_bad("an element was constructed on top of a live one"); else lt_add(this); live_elems++; }
  void use() const { if(!lt_has(this)) elem_bad("an element was used before construction or after destruction"); }
  static void site() { if(fault(F_ELEM)) throw ElemError(); }
  Elem() { site(); v=0; born(); }
  Elem(long x) { site(); v=x; born(); }
  Elem(const Elem& o) { o.use(); site(); v=o.v; born(); }
  Elem(Elem&& o) noexcept(K==1) { o.use(); if(K==0) site(); v=o.v; o.v=MOVED; born(); }
  Elem& operator=(const Elem& o) { use(); o.use(); site(); v=o.v; return *this; }
  Elem& operator=(Elem&& o) noexcept(K==1) { use(); o.use(); if(K==0) site(); v=o.v; if(&o!=this) o.v=MOVED; return *this; }
  ~Elem() { use(); lt_del(this); live_elems--; }
};
template<class T> long val(const T& t) { return (long)t; }
template<int K> long val(const Elem<K>& t) { t.use(); return t.v; }
template<class T> struct is_elem { enum { value=0 }; }; template<int K> struct is_elem<Elem<K>> { enum { value=1 }; };

// ---- allocator that keeps a ledger. P: 1 propagates on copy assignment, 2 on move assignment, 4 on swap
struct Led { void* p; size_t bytes; int id; bool live; } led[8192]; int nled;
template<class T,int P> struct TA {
  typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef T& reference; typedef const T& const_reference;
  typedef std::integral_constant<bool,(P&1)!=0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool,(P&2)!=0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool,(P&4)!=0> propagate_on_container_swap;
  template<class U> struct rebind { typedef TA<U,P> other; };
  int id;
  TA(int i=0) noexcept: id(i) {}
  template<class U> TA(const TA<U,P>& o) noexcept: id(o.id) {}
  T* allocate(size_t n) { if(n>(size_t)1<<40) throw std::bad_alloc(); T* p=(T*)::operator new(n*sizeof(T)); if(nled<8192) { led[nled].p=p; led[nled].bytes=n*sizeof(T); led[nled].id=id; led[nled].live=true; nled++; } return p; }
  void deallocate(T* p,size_t n) {
    if(!p) return;
    int k=nled-1; while(k>=0 && !(led[k].p==p && led[k].live)) k--;
    if(k<0) { if(MODE==2) fail("block-not-owned","a block that was not allocated, or was already released, is released"); return; }
    led[k].live=false;
    if(MODE==2 && led[k].bytes!=n*sizeof(T)) fail("block-wrong-size","a block of %zu bytes is returned to its allocator as %zu bytes",led[k].bytes,n*sizeof(T));
    if(MODE==2 && led[k].id!=id) fail("block-wrong-allocator","a block from allocator %d is returned to allocator %d, which is not equal to it",led[k].id,id);
    ::operator delete(p);
  }
  bool operator==(const TA& o) const { return id==o.id; } bool operator!=(const TA& o) const { return id!=o.id; }
};
template<class A> struct Mk { static A make(int) { return A(); } };
template<class T,int P> struct Mk<TA<T,P>> { static TA<T,P> make(int id) { return TA<T,P>(id); } };
template<class T> struct Mk<aligned_allocator<T>> { static aligned_allocator<T> make(int id) { return aligned_allocator<T>((uint8_t)(3+id)); } };
template<class A> struct IsAligned { enum { value=0 }; }; template<class T> struct IsAligned<aligned_allocator<T>> { enum { value=1 }; };

enum Why { W_OK, W_MEM, W_ELEM, W_LOGIC, W_OTHER };
const char* whyname[]={"done","out of memory","element failed","refused","other exception"};
template<class F> Why attempt(F f) {
  faults_on(true); Why w=W_OK;
  try { f(); faults_on(false); }
  catch(std::bad_alloc&) { faults_on(false); w=W_MEM; }
  catch(ElemError&) { faults_on(false); w=W_ELEM; }
  catch(std::logic_error&) { faults_on(false); w=W_LOGIC; }
  catch(...) { faults_on(false); w=W_OTHER; }
  return w;
}
const size_t MAXN=256;
struct Model { bool exists; bool any; size_t ext[3]; size_t n; long v[MAXN]; };

template<unsigned R,class Arr> struct Ix; // the ways to address one element
template<class Arr> struct Ix<1,Arr> { template<class B> static long get(B& a,const size_t* i,int form) { std::array<size_t,1> k; k[0]=i[0]; std::vector<size_t> kv; switch(form) { case 0: return val(a[i[0]]); case 1: return val(a[{i[0]}]); default: return val(a[k]); } } 
  template<class V> static void set(Arr& a,const size_t* i,V v) { a[i[0]]=v; } };
template<class Arr> struct Ix<2,Arr> { template<class B> static long get(B& a,const size_t* i,int form) { std::array<size_t,2> k; k[0]=i[0]; k[1]=i[1]; switch(form) { case 0: return val(a[i[0]][i[1]]); case 1: return val(a[{i[0],i[1]}]); default: return val(a[k]); } }
  template<class V> static void set(Arr& a,const size_t* i,V v) { a[i[0]][i[1]]=v; } };
template<class Arr> struct Ix<3,Arr> { template<class B> static long get(B& a,const size_t* i,int form) { std::array<size_t,3> k; k[0]=i[0]; k[1]=i[1]; k[2]=i[2]; switch(form) { case 0: return val(a[i[0]][i[1]][i[2]]); case 1: return val(a[{i[0],i[1],i[2]}]); default: return val(a[k]); } }
  template<class V> static void set(Arr& a,const size_t* i,V v) { a[i[0]][i[1]][i[2]]=v; } };
// construction and assignment from nested lists of fixed shape; the lists themselves are built without faults
template<class T,unsigned R,class A> struct Lists;
template<class T,class A> struct Lists<T,1,A> { typedef marray<T,1,A> Arr; static void shape(size_t* e) { e[0]=3; }
  static Why make(void* at,const A& al,long b,bool bad) { std::initializer_list<T> g={T(b),T(b+1),T(b+2)}, w={T(b),T(b+1)}; return attempt([&]{ new(at) Arr({3},bad?w:g,al); }); }
  static Why assign(Arr& a,long b) { std::initializer_list<T> g={T(b),T(b+1),T(b+2)}; return attempt([&]{ a=g; }); } };
template<class T,class A> struct Lists<T,2,A> { typedef marray<T,2,A> Arr; static void shape(size_t* e) { e[0]=2; e[1]=2; } typedef std::initializer_list<std::initializer_list<T>> L;
  static Why make(void* at,const A& al,long b,bool bad) { L g={{T(b),T(b+1)},{T(b+2),T(b+3)}}, w={{T(b),T(b+1)},{T(b+2)}}; return attempt([&]{ new(at) Arr({2,2},bad?w:g,al); }); }
  static Why assign(Arr& a,long b) { L g={{T(b),T(b+1)},{T(b+2),T(b+3)}}; return attempt([&]{ a=g; }); } };
template<class T,class A> struct Lists<T,3,A> { typedef marray<T,3,A> Arr; static void shape(size_t* e) { e[0]=1; e[1]=2; e[2]=2; } typedef std::initializer_list<std::initializer_list<std::initializer_list<T>>> L;
  static Why make(void* at,const A& al,long b,bool bad) { L g={{{T(b),T(b+1)},{T(b+2),T(b+3)}}}, w={{{T(b),T(b+1)},{T(b+2),T(b+3)}},{{T(b),T(b+1)},{T(b+2),T(b+3)}}}; return attempt([&]{ new(at) Arr({1,2,2},bad?w:g,al); }); }
  static Why assign(Arr& a,long b) { L g={{{T(b),T(b+1)},{T(b+2),T(b+3)}}}; return attempt([&]{ a=g; }); } };

template<class T,unsigned R,class A> struct Hist {
  typedef marray<T,R,A> Arr; enum { NS=4 };
  typename std::aligned_storage<sizeof(Arr),alignof(Arr)>::type st[NS]; Model m[NS]; long next; Mark blocks0; long elems0;
  Arr& a(int i) { return *(Arr*)&st[i]; }
  static size_t prod(const size_t* e) { size_t p=1; for(unsigned d=0;d<R;d++) p*=e[d]; return p; }
  void str(const Model& q,char* b) { int k=0; for(unsigned d=0;d<R;d++) k+=sprintf(b+k,"%s%zu",d?"x":"",q.ext[d]); }
  // the array's shape and contents against the model; any: only its integrity
  void verify(int i,const char* when) {
    Model& q=m[i]; if(!q.exists) return; Arr& x=a(i); const Arr& c=x; char sh[64];
    const char* cls= MODE==1?"changed-by-failure":"wrong-contents";
    size_t e[3]; for(unsigned d=0;d<R;d++) e[d]=c.extent(d);
    if(c.size()!=prod(e)) fail(MODE==1?"unusable-after-failure":"wrong-shape","array %d: %s: size %zu does not match its extents",i,when,c.size());
    if(q.any) { if(c.size()>MAXN) fail("wrong-shape","array %d: %s: impossible size %zu",i,when,c.size()); q.any=false; q.n=c.size(); for(unsigned d=0;d<R;d++) q.ext[d]=e[d]; size_t k=0; for(auto it=c.begin();it!=c.end();++it) q.v[k++]=val(*it); return; }
    str(q,sh);
    for(unsigned d=0;d<R;d++) if(e[d]!=q.ext[d]) fail(MODE==1?"changed-by-failure":"wrong-shape","array %d: %s: extent %u is %zu instead of %zu (shape should be %s)",i,when,d,e[d],q.ext[d],sh);
    if(c.rank()!=R || c.empty()!=(q.n==0)) fail("wrong-shape","array %d: %s: rank or emptiness wrong",i,when);
    if(IsAligned<A>::value && q.n) { size_t al=(size_t)1<<al_id(x); if((size_t)x.get_data()&(al-1)) { if(MODE==3) fail("misaligned","array %d: %s: storage not aligned to %zu",i,when,al); } }
    size_t k=0; for(auto it=c.begin();it!=c.end();++it,++k) { if(k>=q.n || val(*it)!=q.v[k]) fail(cls,"array %d (%s): %s: element %zu is %ld instead of %ld",i,sh,when,k,val(*it),k<q.n?q.v[k]:-9); }
    if(k!=q.n) fail("wrong-contents","array %d: %s: iteration visits %zu of %zu elements",i,when,k,q.n);
    if(MODE!=3) return;
    k=q.n; if(q.n) for(auto it=x.rbegin();it!=x.rend();it++) { --k; if(val(*it)!=q.v[k]) fail(cls,"array %d (%s): %s: reverse iteration gives %ld instead of %ld",i,sh,when,val(*it),q.v[k]); }
    if(q.n) { if(val(x.front())!=q.v[0] || val(c.front())!=q.v[0]) fail(cls,"array %d: front is wrong",i); if(val(x.back())!=q.v[q.n-1]) fail(cls,"array %d: back is wrong",i);
      if(!std::is_same<T,Elem<0>>::value && !std::is_same<T,Elem<1>>::value && val(c.back())!=q.v[q.n-1]) fail(cls,"array %d: back of a constant array is wrong",i); }
    int form=(int)choose(3); size_t ix[3]={0,0,0};
    for(k=0;k<q.n;k++) { size_t r=k; for(int d=R-1;d>=0;d--) { ix[d]=r%q.ext[d]; r/=q.ext[d]; }
      long g=k&1?Ix<R,Arr>::get(c,ix,form):Ix<R,Arr>::get(x,ix,form); if(g!=q.v[k]) fail(cls,"array %d (%s): %s: indexed element %zu is %ld instead of %ld",i,sh,when,k,g,q.v[k]);
      if(form==0) for(unsigned d=0;d<R;d++) if(x.getCoordinate(x.begin()+(ptrdiff_t)k,d)!=ix[d]) fail("wrong-coordinate","array %d (%s): coordinate %u of element %zu wrong",i,sh,d,k); }
  }
  template<class B> static typename std::enable_if<IsAligned<typename B::allocator_type>::value,int>::type al_id(B& b) { int p=0; while(p<31 && !(b.get_allocator()==aligned_allocator<T>((uint8_t)p))) p++; return p; }
  template<class B> static typename std::enable_if<!IsAligned<typename B::allocator_type>::value,int>::type al_id(B&) { return 0; }
  void dims(size_t* e) { for(unsigned d=0;d<R;d++) { static const size_t s[]={2,1,3,0,4,2}; e[d]=s[choose(6)]; } }
  std::array<size_t,R> arr(const size_t* e) { std::array<size_t,R> r; for(unsigned d=0;d<R;d++) r[d]=e[d]; return r; }
  void setm(int i,const size_t* e,long base,long stride) { Model& q=m[i]; q.exists=true; q.any=false; q.n=prod(e); for(unsigned d=0;d<R;d++) q.ext[d]=e[d]; for(size_t k=0;k<q.n;k++) q.v[k]=base+(long)k*stride; }
  int pick(bool exists) { int c[NS],n=0; for(int i=0;i<NS;i++) if(m[i].exists==exists) c[n++]=i; if(!n) return -1; return c[choose((uint32_t)n)]; }

  void step() {
    int empty=pick(false); int i=pick(true); int op=(int)choose(20); size_t e[3]={1,1,1}; Why w; const char* what=""; char sh[64];
    Mark blk=mark(); long el=live_elems; uint64_t f0=fired_total();
    bool creates=false,refuse=false; int target=-1,source=-1; bool strong=false; bool same=false;
    if(i<0 || (op<=6 && empty>=0)) { // construction
      if(empty<0) return; int al=(int)choose(3); A alloc=Mk<A>::make(al); creates=true; target=empty; void* at=&st[empty]; int kind=(int)choose(8); source=-1;
      if(i<0 && kind>=5 && kind<=6) kind=1;
      switch(kind) {
        case 0: what="empty"; w=attempt([&]{ new(at) Arr(alloc); }); if(w==W_OK) { size_t z[3]={0,0,0}; setm(empty,z,0,0); } break;
        case 1: { dims(e); what="sized"; std::array<size_t,R> x=arr(e); w=attempt([&]{ new(at) Arr(x,alloc); }); if(w==W_OK) { setm(empty,e,0,0); 
            if(!is_elem<T>::value) { /* default construction of a scalar: value-initialised */ } } break; }
        case 2: { what="from lists"; long b=next; next+=8; Lists<T,R,A>::shape(e); w=Lists<T,R,A>::make(at,alloc,b,false); if(w==W_OK) setm(empty,e,b,1); break; }
        case 3: { what="from ill-shaped lists"; long b=next; refuse=true; w=Lists<T,R,A>::make(at,alloc,b,true); if(w==W_OK) { if(MODE==3) fail("accepted-bad-shape","a list of the wrong shape was accepted"); Lists<T,R,A>::shape(e); setm(empty,e,0,0); m[empty].any=true; } break; }
        case 4: { what="from a range"; dims(e); size_t n=prod(e); long b=next; next+=(long)n; T* src=(T*)malloc(sizeof(T)*(n+1)); for(size_t k=0;k<n;k++) new(src+k) T(b+(long)k);
            el=live_elems; size_t x0=e[0],x1=e[1],x2=e[2]; int bad=(int)choose(6)==5?1:0; if(bad && n==0) bad=0; refuse=bad; if(bad) what="from a range of wrong length";
            w=attempt([&]{ if(R==1) mk1(at,x0,x1,x2,src,src+n-bad,alloc,std::integral_constant<unsigned,R>()); else mk1(at,x0,x1,x2,src,src+n-bad,alloc,std::integral_constant<unsigned,R>()); });
            if(w==W_OK) { setm(empty,e,b,1); if(bad && MODE==3) fail("accepted-bad-shape","a range of the wrong length was accepted"); }
            { long before=live_elems; for(size_t k=0;k<n;k++) src[k].~T(); if(is_elem<T>::value) el-=before-live_elems; } free(src); break; }
        case 5: { what="copy"; source=i; w=attempt([&]{ new(at) Arr((const Arr&)a(i)); }); if(w==W_OK) m[empty]=m[i]; break; }
        case 6: { what="move"; source=i; w=attempt([&]{ new(at) Arr(std::move(a(i))); }); if(w==W_OK) { m[empty]=m[i]; m[i].any=true; if(MODE!=3) {} } break; }
        default: { what="sized by list"; dims(e); size_t x0=e[0],x1=e[1],x2=e[2]; w=attempt([&]{ mk0(at,x0,x1,x2,alloc,std::integral_constant<unsigned,R>()); }); if(w==W_OK) setm(empty,e,0,0); break; }
      }
      if(w==W_OK) { str(m[empty],sh); describe("array %d: constructed %s, %s\n",empty,what,sh); } else describe("array %d: construction %s: %s\n",empty,what,whyname[w]);
    } else {
      Model& q=m[i]; Arr& x=a(i); target=i;
      switch(op) {
        case 7: case 8: { int j=pick(true); if(j==i) same=true; source=j; what="copy-assign"; strong=true; describe("array %d = array %d: ",i,j); w=attempt([&]{ x=(const Arr&)a(j); }); if(w==W_OK) q=m[j]; else if(m[j].n==q.n) { strong=false; } break; }
        case 9: case 10: { int j=pick(true); source=j; what="move-assign"; if(j==i) { same=true; describe("array %d moved onto itself: ",i); w=attempt([&]{ x=std::move(a(j)); }); break; } describe("array %d = move(array %d): ",i,j); w=attempt([&]{ x=std::move(a(j)); }); if(w==W_OK) { q=m[j]; m[j].any=true; } break; }
        case 11: { int j=pick(true); if(!std::allocator_traits<A>::propagate_on_container_swap::value && !(a(i).get_allocator()==a(j).get_allocator())) return; what="swap"; bool choose2=choose(2); describe("swap arrays %d and %d: ",i,j); source=j; w=attempt([&]{ if(j!=i && choose2) x.swap(a(j)); else { using std::swap; swap(x,a(j)); } }); if(w==W_OK) { Model t=q; q=m[j]; m[j]=t; } break; }
        case 12: { if(!q.n) return; size_t k=choose((uint32_t)q.n); long v=next++; size_t ix[3]={0,0,0},r=k; for(int d=R-1;d>=0;d--) { ix[d]=r%q.ext[d]; r/=q.ext[d]; } describe("array %d: element %zu set to %ld: ",i,k,v); T tv(v); el=live_elems; w=attempt([&]{ Ix<R,Arr>::set(x,ix,tv); }); el-=is_elem<T>::value; if(w==W_OK) q.v[k]=v; break; }
        case 13: case 14: case 15: { unsigned dim=choose(R); size_t pos=choose((uint32_t)q.ext[dim]+1), num=choose(3)+(choose(8)==7?0:1); if(num==3) num=1; if(q.ext[dim]&&q.n/q.ext[dim]*(q.ext[dim]+num)>MAXN/2) return; if(!q.n) { size_t p=1; for(unsigned d=0;d<R;d++) p*=d==dim?q.ext[d]+num:q.ext[d]; if(p>MAXN/2) return; }
          long v=next++; strong=true; what="insert"; describe("array %d: insert %zu of value %ld at %zu in dimension %u: ",i,num,v,pos,dim); bool dflt=choose(5)==4; 
          w=attempt([&]{ if(dflt) x.insert(dim,pos,num); else x.insert(dim,pos,num,T(v)); }); if(w==W_OK) ins(q,dim,pos,num,dflt?0:v); break; }
        case 16: { unsigned dim=choose(R); if(!q.ext[dim]) return; size_t pos=choose((uint32_t)q.ext[dim]), num=choose((uint32_t)(q.ext[dim]-pos)+1); what="erase"; describe("array %d: erase %zu at %zu in dimension %u: ",i,num,pos,dim); w=attempt([&]{ x.erase(dim,pos,num); }); if(w==W_OK) del(q,dim,pos,num); break; }
        case 17: { what="resize"; size_t ne[3]; dims(ne); if(choose(2)) { unsigned dim=choose(R); describe("array %d: resize dimension %u to %zu: ",i,dim,ne[dim]); if(over(q,dim,ne[dim])) return; w=attempt([&]{ x.resize(dim,ne[dim]); }); if(w==W_OK) rsz(q,dim,ne[dim]); }
          else { Model t=q; for(unsigned d=0;d<R;d++) { if(over(t,d,ne[d])) return; rsz(t,d,ne[d]); } std::array<size_t,R> xs=arr(ne); describe("array %d: resize all: ",i); w=attempt([&]{ x.resize(xs); }); if(w==W_OK) q=t; } break; }
        case 18: { what="reshape"; size_t ne[3]; for(unsigned d=0;d<R;d++) ne[d]=q.ext[(d+1)%R]; refuse=choose(4)==3; if(refuse) ne[0]+=7; if(prod(ne)==q.n) refuse=false; std::array<size_t,R> xs=arr(ne); describe("array %d: reshape: ",i); w=attempt([&]{ x.reshape(xs); }); if(w==W_OK) { if(refuse && MODE==3) fail("accepted-bad-shape","a reshape changing the total size was accepted"); for(unsigned d=0;d<R;d++) q.ext[d]=ne[d]; } else if(refuse) strong=true; break; }
        case 19: { if(choose(2)) { describe("array %d: destroyed\n",i); x.~Arr(); q.exists=false; return; }
          Lists<T,R,A>::shape(e); for(unsigned d=0;d<R;d++) if(e[d]!=q.ext[d]) refuse=true; long b=next; next+=8; what="assign lists"; describe("array %d: assign lists: ",i); w=Lists<T,R,A>::assign(x,b); if(w==W_OK) { if(refuse && MODE==3) fail("accepted-bad-shape","a list of the wrong shape was assigned"); setm(i,e,b,1); } else if(refuse&&w==W_LOGIC) strong=true; break; }
        default: return;
      }
      describe("%s\n",whyname[w]);
    }
    bool firednow=fired_total()!=f0;
    if(w==W_OTHER) fail("unexpected-exception","%s: an exception of another type",what);
    if(w!=W_OK && !firednow && !(refuse&&w==W_LOGIC)) fail("unexpected-exception","%s failed although nothing was wrong (%s)",what,whyname[w]);
    if(w==W_OK && firednow && MODE==1) fail("failure-swallowed","%s returned normally although an element or the memory failed",what);
    if(w!=W_OK) {
      if(firednow) { probe("operation failed under a fault"); nontrivial(); }
      if(MODE==1) {
        if(creates) { if(leaked(blk)) fail("leak","construction %s failed (%s) and left %zd block(s) behind",what,whyname[w],(ssize_t)leaked(blk)); if(is_elem<T>::value && live_elems!=el) fail("leak","construction %s failed (%s) and left %ld element(s) behind",what,whyname[w],live_elems-el); }
        else if(strong) { probe("strong guarantee checked"); verify(target,what); }
        if(source>=0 && source!=target && op!=9 && op!=10 && op!=11) verify(source,"source of a failed operation");
      }
      if(!creates && (!strong||MODE!=1)) m[target].any=true;
      if(source>=0 && (op>=9&&op<=11)) m[source].any=true;
      if(creates && source>=0) m[source].any=false;
    }
    (void)same;
    for(int k=0;k<NS;k++) if(m[k].exists && (MODE!=1 || m[k].any)) verify(k,w==W_OK?what:"after a failed operation");
    if(MODE==2) { check_heap(); long want=0; if(is_elem<T>::value) { for(int k=0;k<NS;k++) if(m[k].exists) want+=(long)a(k).size(); if(live_elems!=want) fail("element-count","%s (%s): %ld elements are alive but the arrays hold %ld",what,whyname[w],live_elems,want); } }
  }
  void mk1(void* at,size_t x,size_t,size_t,T* b,T* e,const A& al,std::integral_constant<unsigned,1>) { new(at) Arr({x},b,e,al); }
  void mk1(void* at,size_t x,size_t y,size_t,T* b,T* e,const A& al,std::integral_constant<unsigned,2>) { new(at) Arr({x,y},b,e,al); }
  void mk1(void* at,size_t x,size_t y,size_t z,T* b,T* e,const A& al,std::integral_constant<unsigned,3>) { new(at) Arr({x,y,z},b,e,al); }
  void mk0(void* at,size_t x,size_t,size_t,const A& al,std::integral_constant<unsigned,1>) { std::initializer_list<size_t> l={x}; new(at) Arr(l,al); }
  void mk0(void* at,size_t x,size_t y,size_t,const A& al,std::integral_constant<unsigned,2>) { std::initializer_list<size_t> l={x,y}; new(at) Arr(l,al); }
  void mk0(void* at,size_t x,size_t y,size_t z,const A& al,std::integral_constant<unsigned,3>) { std::initializer_list<size_t> l={x,y,z}; new(at) Arr(l,al); }
  bool over(const Model& q,unsigned dim,size_t s) { size_t p=s; for(unsigned d=0;d<R;d++) if(d!=dim) p*=q.ext[d]; return p>MAXN/2; }
  void rsz(Model& q,unsigned dim,size_t s) { if(s<q.ext[dim]) del(q,dim,s,q.ext[dim]-s); else if(s>q.ext[dim]) ins(q,dim,q.ext[dim],s-q.ext[dim],0); }
  void ins(Model& q,unsigned dim,size_t pos,size_t num,long v) { Model t=q; t.ext[dim]+=num; t.n=prod(t.ext); for(size_t k=0;k<t.n;k++) { size_t ix[3]={0,0,0},r=k; for(int d=R-1;d>=0;d--) { ix[d]=r%t.ext[d]; r/=t.ext[d]; }
      if(ix[dim]>=pos && ix[dim]<pos+num) t.v[k]=v; else { if(ix[dim]>=pos+num) ix[dim]-=num; size_t o=0; for(unsigned d=0;d<R;d++) o=o*q.ext[d]+ix[d]; t.v[k]=q.v[o]; } } q=t; }
  void del(Model& q,unsigned dim,size_t pos,size_t num) { Model t=q; t.ext[dim]-=num; t.n=prod(t.ext); for(size_t k=0;k<t.n;k++) { size_t ix[3]={0,0,0},r=k; for(int d=R-1;d>=0;d--) { ix[d]=r%t.ext[d]; r/=t.ext[d]; }
      if(ix[dim]>=pos) ix[dim]+=num; size_t o=0; for(unsigned d=0;d<R;d++) o=o*q.ext[d]+ix[d]; t.v[k]=q.v[o]; } q=t; }
  void run() {
    faults_on(false); race_detection(false); next=1; live_elems=0; nled=0; for(int i=0;i<NS;i++) m[i].exists=m[i].any=false;
    blocks0=mark(); int steps=(int)range(3,16); for(int s=0;s<steps;s++) step();
    for(int i=0;i<NS;i++) if(m[i].exists) a(i).~Arr();
    if(MODE==2) { if(is_elem<T>::value && live_elems) fail("element-leak","%ld element(s) are still alive after the last array is gone",live_elems);
      for(int k=0;k<nled;k++) if(led[k].live) fail("block-leak","a block of %zu bytes was never returned to its allocator",led[k].bytes);
      if(leaked(blocks0)) { dump_live("end"); fail("block-leak","%zd block(s) of memory are still allocated after the last array is gone",(ssize_t)leaked(blocks0)); } }
    if(MODE==3) nontrivial(); if(MODE==2) nontrivial();
  }
};
template<class T,unsigned R,class A> void hist(const char* n) { describe("%s\n",n); Hist<T,R,A>* h=(Hist<T,R,A>*)malloc(sizeof(Hist<T,R,A>)); memset((void*)h,0,sizeof *h); h->run(); free(h); }
typedef Elem<0> E0; typedef Elem<1> E1;
void anyhist() {
  switch(choose(9)) {
    case 0: hist<E0,2,TA<E0,0>>("throwing elements, rank 2, own allocator"); break;
    case 1: hist<E1,2,TA<E1,0>>("movable elements, rank 2, own allocator"); break;
    case 2: hist<E1,2,TA<E1,7>>("movable elements, rank 2, propagating allocator"); break;
    case 3: hist<E0,1,TA<E0,7>>("throwing elements, rank 1, propagating allocator"); break;
    case 4: hist<E1,3,TA<E1,2>>("movable elements, rank 3, move-propagating allocator"); break;
    case 5: hist<double,3,aligned_allocator<double>>("doubles, rank 3, aligned allocator"); break;
    case 6: hist<double,1,std::allocator<double>>("doubles, rank 1"); break;
    case 7: hist<E1,2,std::allocator<E1>>("movable elements, rank 2"); break;
    default: hist<long,3,TA<long,1>>("integers, rank 3, copy-propagating allocator"); break;
  }
}
void m1() { MODE=1; anyhist(); } void m2() { MODE=2; anyhist(); } void m3() { MODE=3; anyhist(); }

// ---- arithmetic against element-wise reference ---------------------------------------------------
struct Num { double x; Num(): x(0) {} Num(double d): x(d) {} Num(const Num& o): x(o.x) {} Num& operator=(const Num& o) { x=o.x; return *this; }
  Num& operator+=(const Num& o) { x+=o.x; return *this; } Num& operator-=(const Num& o) { x-=o.x; return *this; } Num& operator*=(const Num& o) { x*=o.x; return *this; } Num& operator/=(const Num& o) { x/=o.x; return *this; } };
Num operator+(const Num& a,const Num& b) { return Num(a.x+b.x); } Num operator-(const Num& a,const Num& b) { return Num(a.x-b.x); } Num operator*(const Num& a,const Num& b) { return Num(a.x*b.x); } Num operator/(const Num& a,const Num& b) { return Num(a.x/b.x); } Num operator-(const Num& a) { return Num(-a.x); }
double dv(double d) { return d; } double dv(int d) { return d; } double dv(const Num& n) { return n.x; }
struct Ref { unsigned R; size_t e[3]; size_t n; double v[MAXN]; };
template<class T,unsigned R> void shape(const size_t* e,const marray<T,R>& a,Ref& r) { r.R=R; r.n=1; for(unsigned d=0;d<R;d++) { r.e[d]=a.extent(d); r.n*=r.e[d]; } size_t k=0; for(auto it=a.begin();it!=a.end();++it) r.v[k++]=dv(*it); }
template<class T,unsigned R> void same(const char* what,const marray<T,R>& a,const Ref& r) {
  if(R!=r.R) fail("wrong-shape","%s: rank",what); for(unsigned d=0;d<R;d++) if(a.extent(d)!=r.e[d]) fail("wrong-shape","%s: extent %u is %zu instead of %zu",what,d,a.extent(d),r.e[d]);
  if(a.size()!=r.n) fail("wrong-shape","%s: size is %zu instead of %zu",what,a.size(),r.n); size_t k=0; for(auto it=a.begin();it!=a.end();++it,++k) { double g=dv(*it); if(!(g==r.v[k]) && !(g!=g && r.v[k]!=r.v[k])) fail("wrong-arithmetic","%s: element %zu is %.17g instead of %.17g",what,k,g,r.v[k]); } }
double ap(int op,double a,double b) { switch(op) { case 0: return a+b; case 1: return a-b; case 2: return a*b; default: return a/b; } }
int ap(int op,int a,int b) { switch(op) { case 0: return a+b; case 1: return a-b; case 2: return a*b; default: return a/b; } }
template<class T> double apt(int op,double a,double b) { return std::is_same<T,int>::value ? (double)ap(op,(int)a,(int)b) : ap(op,a,b); }
template<class T> void binref(int op,const Ref& a,const Ref& b,Ref& r) { r.R=a.R>b.R?a.R:b.R; r.n=1; size_t ea[3]={1,1,1},eb[3]={1,1,1};
  for(unsigned d=0;d<a.R;d++) ea[d+r.R-a.R]=a.e[d]; for(unsigned d=0;d<b.R;d++) eb[d+r.R-b.R]=b.e[d]; for(unsigned d=0;d<r.R;d++) { r.e[d]=ea[d]==1?eb[d]:ea[d]; r.n*=r.e[d]; }
  for(size_t k=0;k<r.n;k++) { size_t q=k,ix[3]; for(int d=(int)r.R-1;d>=0;d--) { ix[d]=q%r.e[d]; q/=r.e[d]; } size_t oa=0,ob=0; for(unsigned d=0;d<r.R;d++) { oa=oa*ea[d]+(ea[d]==1?0:ix[d]); ob=ob*eb[d]+(eb[d]==1?0:ix[d]); } r.v[k]=apt<T>(op,a.v[oa],b.v[ob]); } }
template<class T,unsigned R> void filla(marray<T,R>& a) { int k=0; for(auto& x: a) x=T((int)choose(9)+1+(k++%3)); }
template<unsigned R> std::array<size_t,R> ar(const size_t* e) { std::array<size_t,R> r; for(unsigned d=0;d<R;d++) r[d]=e[d]; return r; }
template<class F> bool att(F f) { Why w=attempt(f); if(w==W_OK) return true; if(w==W_MEM && fired_total()) { probe("arithmetic ran out of memory"); return false; } fail("unexpected-exception","arithmetic failed without cause (%s)",whyname[w]); }
template<class T,unsigned R> marray<T,R> quot(marray<T,R>& a,marray<T,R>& b) { return a/b; }
template<class T,unsigned R1,unsigned R2> marray<T,(R1>R2?R1:R2)> quot(const marray<T,R1>& a,const marray<T,R2>& b) { return a/b; }
template<class M> int store(M*& r,void* at,M&& x) { r=new(at) M(std::move(x)); return 0; }
template<class M,class O> int store(M*& r,void* at,O&& x) { return 1; }
template<class T,unsigned R1,unsigned R2> void arith(const char* nm) {
  enum { RO=R1>R2?R1:R2 }; faults_on(false); size_t e[3],e1[3],e2[3]; for(int d=0;d<3;d++) { static const size_t s[]={2,3,1,4,0}; e[d]=s[choose(5)]; }
  for(unsigned d=0;d<R1;d++) e1[d]=e[d+3-R1]; for(unsigned d=0;d<R2;d++) e2[d]=e[d+3-R2];
  if(choose(2)) { for(unsigned d=0;d<R1;d++) if(choose(3)==2) e1[d]=1; for(unsigned d=0;d<R2;d++) if(choose(3)==2) e2[d]=1; }
  marray<T,R1> a(ar<R1>(e1)); marray<T,R2> b(ar<R2>(e2)); filla(a); filla(b); Ref ra,rb,rr; shape(e,a,ra); shape(e,b,rb); const marray<T,R1>& ca=a; const marray<T,R2>& cb=b;
  describe("arithmetic %s rank %u and %u, extents %zu %zu %zu\n",nm,R1,R2,e[0],e[1],e[2]);
  for(int op=0;op<4;op++) { binref<T>(op,ra,rb,rr); char w[64]; sprintf(w,"array %c array (rank %u, %u)","+-*/"[op],R1,R2);
    bool cst=choose(2); marray<T,RO>* r=nullptr; typename std::aligned_storage<sizeof(marray<T,RO>),alignof(marray<T,RO>)>::type st;
    auto wrong=[&](int wr) { if(wr) fail("wrong-shape","%s: the result has another rank or type",w); };
    if(att([&]{ int wr=0; if(cst) switch(op) { case 0: wr=store(r,&st,ca+cb); break; case 1: wr=store(r,&st,ca-cb); break; case 2: wr=store(r,&st,ca*cb); break; default: wr=store(r,&st,ca/cb); }
      else switch(op) { case 0: wr=store(r,&st,a+b); break; case 1: wr=store(r,&st,a-b); break; case 2: wr=store(r,&st,a*b); break; default: wr=store(r,&st,quot(a,b)); } wrong(wr); })) { same(w,*r,rr); typedef marray<T,RO> MM; r->~MM(); }
    same("left operand after an operation",a,ra); same("right operand after an operation",b,rb); }
  T f=T((int)choose(5)+2); double fd=dv(f);
  for(int op=0;op<4;op++) { Ref q=ra; char w[64]; sprintf(w,"array %c scalar",  "+-*/"[op]); for(size_t k=0;k<q.n;k++) q.v[k]=apt<T>(op,ra.v[k],fd);
    att([&]{ marray<T,R1> r= op==0?a+f:op==1?a-f:op==2?a*f:a/f; FaultsOff o; same(w,r,q); }); 
    Ref p=ra; sprintf(w,"scalar %c array","+-*/"[op]); for(size_t k=0;k<p.n;k++) p.v[k]=apt<T>(op,fd,ra.v[k]);
    att([&]{ marray<T,R1> r= op==0?f+a:op==1?f-a:op==2?f*a:f/a; FaultsOff o; same(w,r,p); });
    att([&]{ marray<T,R1> r(a); switch(op) { case 0: r+=f; break; case 1: r-=f; break; case 2: r*=f; break; default: r/=f; } FaultsOff o; sprintf(w,"array %c= scalar","+-*/"[op]); same(w,r,q); });
    att([&]{ marray<T,R1> c(a); Ref s; { FaultsOff o; filla(c); shape(e,c,s); } marray<T,R1> r(a); switch(op) { case 0: r+=c; break; case 1: r-=c; break; case 2: r*=c; break; default: r/=c; } FaultsOff o; Ref z; binref<T>(op,ra,s,z); sprintf(w,"array %c= array","+-*/"[op]); same(w,r,z); });
    same("operand after an operation",a,ra); }
  { Ref q=ra; for(size_t k=0;k<q.n;k++) q.v[k]=-q.v[k]; att([&]{ marray<T,R1> r=-ca; FaultsOff o; same("-array",r,q); }); }
  if(e1[R1-1] && e1[0]) {
    double s=0; for(size_t k=0;k<ra.n;k++) s+=ra.v[k]; if(ra.n && dv(ca.sum())!=s) fail("wrong-arithmetic","sum is %.17g instead of %.17g",dv(ca.sum()),s);
    unsigned dim=choose(R1); Ref q; q.R=R1; for(unsigned d=0;d<R1;d++) q.e[d]=d==dim?1:ra.e[d]; q.n=1; for(unsigned d=0;d<R1;d++) q.n*=q.e[d]; for(size_t k=0;k<q.n;k++) q.v[k]=0;
    for(size_t k=0;k<ra.n;k++) { size_t r=k,ix[3]; for(int d=(int)R1-1;d>=0;d--) { ix[d]=r%ra.e[d]; r/=ra.e[d]; } ix[dim]=0; size_t o=0; for(unsigned d=0;d<R1;d++) o=o*q.e[d]+ix[d]; q.v[o]+=ra.v[k]; }
    att([&]{ marray<T,R1> r=ca.sum_same_rank(dim); FaultsOff o; same("sum_same_rank",r,q); });
    projected(ca,dim,q,std::integral_constant<bool,(R1>1)>()); }
  nontrivial();
}
template<class T,unsigned R> void projected(const marray<T,R>&,unsigned,Ref&,std::false_type) {}
template<class T,unsigned R> void projected(const marray<T,R>& a,unsigned dim,Ref& q,std::true_type) { Ref p=q; p.R=R-1; for(unsigned d=0,j=0;d<R;d++) if(d!=dim) p.e[j++]=q.e[d]; att([&]{ marray<T,R-1> r=a.sum(dim); FaultsOff o; same("sum over a dimension",r,p); }); }
void m3a() { MODE=3; faults_on(false); race_detection(false); Mark b0=mark();
  switch(choose(8)) { case 0: arith<double,1,1>("double"); break; case 1: arith<double,2,2>("double"); break; case 2: arith<double,3,3>("double"); break; case 3: arith<double,2,3>("double"); break; case 4: arith<double,3,1>("double"); break; case 5: arith<Num,2,2>("non-trivial number"); break; case 6: arith<int,2,1>("int"); break; default: arith<Num,1,2>("non-trivial number"); }
  if(leaked(b0)) fail("block-leak","arithmetic left %zd block(s) behind",(ssize_t)leaked(b0)); }

// ---- M04 ----------------------------------------------------------------------------------------
struct Blk { unsigned char* p; size_t bytes; int pow; int type; unsigned seed; size_t n; };
struct S24 { double a,b,c; };
template<class T> void take(Blk& b,size_t n,int pow) { aligned_allocator<T> al((uint8_t)pow); b.p=(unsigned char*)al.allocate(n); b.n=n; b.bytes=n*sizeof(T); b.pow=pow; }
template<class T> void give(Blk& b,int how) { aligned_allocator<T> al((uint8_t)b.pow); aligned_allocator<T> c(al); if(how==1) { typedef typename std::allocator_traits<aligned_allocator<T>> AT; AT::deallocate(al,(T*)b.p,b.n); } else c.deallocate((T*)b.p,b.n); }
size_t all_blocks() { return live_blocks()+live_mallocs(); }
void m4() {
  MODE=4; faults_on(false); race_detection(false); malloc_arm(true); Mark base=mark(); enum { N=12 }; Blk b[N]; int n=0; int steps=(int)range(2,20); unsigned seed=1;
  for(int s=0;s<steps;s++) {
    uint64_t f0=fired_total();
    if(n<N && (n==0 || choose(3)!=2)) {
      Blk& k=b[n]; k.type=(int)choose(3); static const int pows[]={5,3,4,6,7,8,9,10,11,12,13,14,0,1,2}; int pow=pows[choose(15)]; size_t cnt=choose(40); int big=(int)choose(12);
      size_t sz=k.type==0?8:k.type==1?1:24; bool huge=false;
      if(big==11) { huge=true; switch(choose(5)) { case 0: cnt=~(size_t)0; break; case 1: cnt=~(size_t)0/sz; break; case 2: cnt=(~(size_t)0-((size_t)1<<pow))/sz; break; case 3: cnt=(~(size_t)0-((size_t)1<<pow))/sz+1; break; default: cnt=((size_t)1<<61)+1; } if(sz==1 && cnt==((size_t)1<<61)+1) cnt=~(size_t)0-3; }
      else if(big==10) { pow=31; if(choose(2)) pow=choose(2)?20:17; }
      Mark blk=mark(); bool ok=false; std::string what;
      faults_on(true);
      try { switch(k.type) { case 0: take<double>(k,cnt,pow); break; case 1: take<char>(k,cnt,pow); break; default: take<S24>(k,cnt,pow); } faults_on(false); ok=true; }
      catch(std::bad_alloc&) { faults_on(false); } catch(std::exception& e) { faults_on(false); fail("wrong-failure","allocation failed with %s",e.what()); }
      describe("allocate %zu objects of %zu bytes aligned to 2^%d: %s\n",cnt,sz,pow,ok?"ok":"refused");
      if(ok && huge) fail("impossible-size-granted","a request for %zu objects of %zu bytes was granted",cnt,sz);
      if(ok && fired_total()!=f0) fail("failure-swallowed","the system refused memory but the request was granted");
      if(!ok) { if(fired_total()==f0 && !huge && pow<30) fail("refused","a small request was refused"); if(leaked(blk)||leaked_c(blk)) fail("leak","a refused request left memory behind"); probe(huge?"impossible request refused":"system refused memory"); }
      else {
        if((size_t)k.p & (((size_t)1<<pow)-1)) fail("misaligned","block at %p is not aligned to 2^%d",(void*)k.p,pow);
        if(k.bytes && !addr_live(k.p,k.bytes)) fail("not-owned","block of %zu bytes is not inside memory obtained from the system",k.bytes);
        if(all_blocks()==blk.blocks+blk.mallocs) fail("not-owned","no memory was obtained for a block");
        for(int j=0;j<n;j++) if(k.p<b[j].p+b[j].bytes && b[j].p<k.p+k.bytes) fail("overlap","two live blocks overlap");
        k.seed=seed++; for(size_t i=0;i<k.bytes;i++) k.p[i]=(unsigned char)(k.seed*37+i*11); n++;
      }
    } else {
      int i=(int)choose((uint32_t)n); size_t blk=all_blocks(); int how=(int)choose(2); describe("release block %d\n",i);
      faults_on(true); switch(b[i].type) { case 0: give<double>(b[i],how); break; case 1: give<char>(b[i],how); break; default: give<S24>(b[i],how); } faults_on(false);
      if(all_blocks()!=blk-1) fail("not-returned","releasing a block returned %zd block(s) to the system",(ssize_t)(blk-all_blocks())); b[i]=b[--n];
    }
    if(all_blocks()<base.blocks+base.mallocs+(size_t)n) fail("not-owned","live blocks share memory from the system");
    for(int j=0;j<n;j++) for(size_t i=0;i<b[j].bytes;i++) if(b[j].p[i]!=(unsigned char)(b[j].seed*37+i*11)) fail("contents-changed","byte %zu of a live block of %zu changed",i,b[j].bytes);
    check_heap();
  }
  while(n) { n--; switch(b[n].type) { case 0: give<double>(b[n],0); break; case 1: give<char>(b[n],0); break; default: give<S24>(b[n],0); } }
  { aligned_allocator<double> al(5); al.deallocate(nullptr,0); }
  if(leaked(base)+leaked_c(base)) { dump_live("end"); fail("leak","%zd block(s) not returned to the system",(ssize_t)(leaked(base)+leaked_c(base))); }
  nontrivial();
}
}
int main(int argc,char** argv) {
  unsigned f=bit(F_ALLOC)|bit(F_ELEM);
  static const Scenario s[]={ {"M01","history",m1,1,f,false,0},{"M02","history",m2,1,f,false,0},{"M03","history",m3,2,f,false,0},{"M03","arithmetic",m3a,1,bit(F_ALLOC),false,0},{"M04","aligned",m4,1,bit(F_ALLOC)|bit(F_MALLOC),false,0} };
  return sim::main(argc,argv,s,sizeof s/sizeof *s);
}
