// Seam between the code under test and the HDF5 library: every call of the public interface passes here, is recorded, and
// may be refused (as it would be when the library runs out of memory). Included by exactly one source of a program.
#include <dlfcn.h>
#include <hdf5.h>
#include <hdf5_hl.h>
namespace seam {
using sim::fault;
struct Obj { hid_t id; const char* by; bool closed; };
static Obj objs[40000]; static int nobj; static bool rec=false, refuse_on=false; static int nth=-1, calls; static int close_failures, refusals, double_close, bad_close; static const char* last_refused="";
static bool refuse(const char* n) { if(!rec) return false; calls++; if(nth>=0) { if(nth--!=0) return false; refusals++; last_refused=n; return true; } if(!refuse_on) return false; if(!fault(sim::F_USER)) return false; refusals++; last_refused=n; return true; }
static void made(hid_t id,const char* by) { if(!rec || id<0) return; if(nobj<40000) { objs[nobj].id=id; objs[nobj].by=by; objs[nobj].closed=false; nobj++; } }
static void unmade(hid_t id,herr_t r,bool was) { if(!rec) return; if(!was) bad_close++; if(r<0 && H5Iis_valid(id)>0) { close_failures++; return; } for(int i=nobj-1;i>=0;i--) if(objs[i].id==id) { if(r<0 && objs[i].closed) double_close++; objs[i].closed=true; return; } }
// objects handed out since `from` and still open
static int still_open(int from,const char** by) { int n=0; for(int i=from;i<nobj;i++) if(!objs[i].closed && H5Iis_valid(objs[i].id)>0) { n++; *by=objs[i].by; } return n; }
static void begin() { H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); rec=true; nobj=0; }
}
#define SEAM_REAL(R,n,...) static R(*real)(__VA_ARGS__)=(R(*)(__VA_ARGS__))dlsym(RTLD_NEXT,#n)
#define SEAM_MAKE(n,D,A) extern "C" hid_t n D { static hid_t(*real) D=(hid_t(*)D)dlsym(RTLD_NEXT,#n); if(seam::refuse(#n)) return -1; hid_t id=real A; seam::made(id,#n); return id; }
#define SEAM_ACT(R,n,D,A) extern "C" R n D { static R(*real) D=(R(*)D)dlsym(RTLD_NEXT,#n); if(seam::refuse(#n)) return (R)-1; return real A; }
#define SEAM_CLOSE(n) extern "C" herr_t n(hid_t id) { static herr_t(*real)(hid_t)=(herr_t(*)(hid_t))dlsym(RTLD_NEXT,#n); bool was=H5Iis_valid(id)>0; herr_t r=real(id); seam::unmade(id,r,was); return r; }
SEAM_MAKE(H5Fopen,(const char* p,unsigned f,hid_t a),(p,f,a))
SEAM_MAKE(H5Fcreate,(const char* p,unsigned f,hid_t c,hid_t a),(p,f,c,a))
SEAM_MAKE(H5Screate,(H5S_class_t t),(t))
SEAM_MAKE(H5Screate_simple,(int r,const hsize_t* d,const hsize_t* m),(r,d,m))
SEAM_MAKE(H5Scopy,(hid_t s),(s))
SEAM_MAKE(H5Pcreate,(hid_t c),(c))
SEAM_MAKE(H5Dcreate2,(hid_t l,const char* n,hid_t t,hid_t s,hid_t a,hid_t b,hid_t c),(l,n,t,s,a,b,c))
SEAM_MAKE(H5Dopen2,(hid_t l,const char* n,hid_t a),(l,n,a))
SEAM_MAKE(H5Dget_space,(hid_t d),(d))
SEAM_MAKE(H5Dget_type,(hid_t d),(d))
SEAM_MAKE(H5Acreate2,(hid_t l,const char* n,hid_t t,hid_t s,hid_t a,hid_t b),(l,n,t,s,a,b))
SEAM_MAKE(H5Acreate_by_name,(hid_t l,const char* o,const char* n,hid_t t,hid_t s,hid_t a,hid_t b,hid_t c),(l,o,n,t,s,a,b,c))
SEAM_MAKE(H5Aopen,(hid_t o,const char* n,hid_t a),(o,n,a))
SEAM_MAKE(H5Aopen_by_name,(hid_t l,const char* o,const char* n,hid_t a,hid_t b),(l,o,n,a,b))
SEAM_MAKE(H5Aget_type,(hid_t a),(a))
SEAM_MAKE(H5Aget_space,(hid_t a),(a))
SEAM_MAKE(H5Tcopy,(hid_t t),(t))
SEAM_MAKE(H5Gopen2,(hid_t l,const char* n,hid_t a),(l,n,a))
SEAM_MAKE(H5Gcreate2,(hid_t l,const char* n,hid_t a,hid_t b,hid_t c),(l,n,a,b,c))
SEAM_MAKE(H5Oopen,(hid_t l,const char* n,hid_t a),(l,n,a))
SEAM_ACT(herr_t,H5Dwrite,(hid_t d,hid_t t,hid_t m,hid_t f,hid_t p,const void* b),(d,t,m,f,p,b))
SEAM_ACT(herr_t,H5Dread,(hid_t d,hid_t t,hid_t m,hid_t f,hid_t p,void* b),(d,t,m,f,p,b))
SEAM_ACT(herr_t,H5Awrite,(hid_t a,hid_t t,const void* b),(a,t,b))
SEAM_ACT(herr_t,H5Aread,(hid_t a,hid_t t,void* b),(a,t,b))
SEAM_ACT(herr_t,H5Tset_size,(hid_t t,size_t n),(t,n))
SEAM_ACT(herr_t,H5Pset_chunk,(hid_t p,int n,const hsize_t* d),(p,n,d))
SEAM_ACT(herr_t,H5Pset_deflate,(hid_t p,unsigned l),(p,l))
SEAM_ACT(int,H5Sget_simple_extent_ndims,(hid_t s),(s))
SEAM_ACT(int,H5Sget_simple_extent_dims,(hid_t s,hsize_t* d,hsize_t* m),(s,d,m))
SEAM_ACT(H5S_class_t,H5Sget_simple_extent_type,(hid_t s),(s))
SEAM_ACT(H5T_class_t,H5Tget_class,(hid_t t),(t))
SEAM_ACT(htri_t,H5Tequal,(hid_t a,hid_t b),(a,b))
extern "C" size_t H5Tget_size(hid_t t) { static size_t(*real)(hid_t)=(size_t(*)(hid_t))dlsym(RTLD_NEXT,"H5Tget_size"); if(seam::refuse("H5Tget_size")) return 0; return real(t); }
SEAM_ACT(htri_t,H5Lexists,(hid_t l,const char* n,hid_t a),(l,n,a))
SEAM_ACT(htri_t,H5Aexists,(hid_t l,const char* n),(l,n))
SEAM_ACT(herr_t,H5Lcreate_hard,(hid_t a,const char* b,hid_t c,const char* d,hid_t e,hid_t f),(a,b,c,d,e,f))
SEAM_ACT(herr_t,H5Lget_info,(hid_t l,const char* n,H5L_info_t* i,hid_t a),(l,n,i,a))
SEAM_ACT(herr_t,H5Ldelete,(hid_t l,const char* n,hid_t a),(l,n,a))
SEAM_ACT(herr_t,H5Adelete,(hid_t l,const char* n),(l,n))
SEAM_ACT(herr_t,H5Fflush,(hid_t o,H5F_scope_t s),(o,s))
SEAM_CLOSE(H5Fclose) SEAM_CLOSE(H5Sclose) SEAM_CLOSE(H5Pclose) SEAM_CLOSE(H5Dclose) SEAM_CLOSE(H5Aclose) SEAM_CLOSE(H5Tclose) SEAM_CLOSE(H5Gclose) SEAM_CLOSE(H5Oclose)
