// Simulated disk: every path below /simfs/ lives in memory; every operation on it is a fault site.
namespace rt {
struct Inode { bool used; char path[160]; u8* d; size_t n, cap; bool ro, linked; u32 refs; int ex; u32 shl; u64 mtime; u32 mode; };
struct Ofd { bool used; int ino; u64 off; int flags; bool hasex, hassh; bool bad; };
enum { NINO=128, NFD=256, FDBASE=200000 };
static Inode IN[NINO]; static Ofd FD[NFD];
struct Disk { u64 limit=~0ull; bool crashed=false, benign=false; u32 dead_r=0, dead_w=0; } D;
struct FMap { FILE* f; int fd; }; static FMap FM[NFD]; static int nFM;
static bool simpath(const char* p) { return p && !strncmp(p,"/simfs/",7); }
static bool simfd(int fd) { return fd>=FDBASE && fd<FDBASE+NFD; }
static bool dk() { return G.on; }
static int look(const char* p) { for(int i=0;i<NINO;i++) if(IN[i].used && IN[i].linked && !strcmp(IN[i].path,p)) return i; return -1; }
static int mk(const char* p) { for(int i=0;i<NINO;i++) if(!IN[i].used) { Inode& n=IN[i]; __libc_free(n.d); memset((void*)&n,0,sizeof n); n.used=n.linked=true; copystr(n.path,sizeof n.path,p); n.mode=0644; return i; } die("harness-disk","too many simulated files"); }
static void drop(int i) { Inode& n=IN[i]; if(!n.linked && !n.refs) { n.used=false; __libc_free(n.d); n.d=nullptr; n.n=n.cap=0; } }
static u64 total() { u64 t=0; for(int i=0;i<NINO;i++) if(IN[i].used) t+=IN[i].n; return t; }
static void setsize(Inode& n,size_t s) { if(s>n.cap) { size_t c=n.cap?n.cap:4096; while(c<s) c*=2; n.d=(u8*)__libc_realloc(n.d,c); n.cap=c; } if(s>n.n) memset(n.d+n.n,0,s-n.n); n.n=s; }
static long derr(int e) { errno=e; return -1; }
static void dop(const char* what,long a,long b) { G.sh->diskops++; G.now+=2000; hashin(0x3000+(u64)a*31+(u64)b); if(G.trace) fprintf(stderr,"[%llu] t%d disk %s %ld %ld\n",(unsigned long long)G.steps,G.cur->id,what,a,b); }
// is the whole machine gone? (after a crash every operation silently does nothing that survives)
static bool crashnow(u32* prm) { if(D.crashed) return true; if(fsite(F_CRASH,prm)) { D.crashed=true; return true; } return false; }
static int dopen(const char* p,int fl,u32 mode) {
  dop("open",fl,0); u32 prm; int acc=fl&O_ACCMODE; int i=look(p);
  if(fsite(F_OPEN,&prm)) { static const int es[]={EIO,EACCES,EMFILE,ENOSPC,ENOENT}; G.sh->eff[F_OPEN]++; return (int)derr(es[prm%5]); }
  if(i<0 && !(fl&O_CREAT)) return (int)derr(ENOENT);
  if(i>=0 && (fl&O_CREAT) && (fl&O_EXCL)) return (int)derr(EEXIST);
  if(i>=0 && IN[i].ro && acc!=O_RDONLY) return (int)derr(EACCES);
  if((i<0 || (fl&O_TRUNC)) && crashnow(nullptr)) { if(i<0) return (int)derr(EIO); fl&=~O_TRUNC; }
  if(i<0) { i=mk(p); IN[i].mode=mode&0777; } if((fl&O_TRUNC) && acc!=O_RDONLY) IN[i].n=0;
  for(int k=0;k<NFD;k++) if(!FD[k].used) { FD[k].used=true; FD[k].ino=i; FD[k].off=0; FD[k].flags=fl; FD[k].hasex=FD[k].hassh=false; FD[k].bad=false; IN[i].refs++; return FDBASE+k; }
  return (int)derr(EMFILE);
}
static Ofd* ofd(int fd) { if(!simfd(fd)||!FD[fd-FDBASE].used) return nullptr; return &FD[fd-FDBASE]; }
static void unlockfd(Ofd& f) { Inode& n=IN[f.ino]; if(f.hasex) n.ex=0; if(f.hassh) n.shl--; f.hasex=f.hassh=false; }
static int dclose(int fd) { Ofd* f=ofd(fd); if(!f) return (int)derr(EBADF); dop("close",fd-FDBASE,0); unlockfd(*f); Inode& n=IN[f->ino]; n.refs--; f->used=false; drop(f->ino);
  u32 prm; if((f->flags&O_ACCMODE)!=O_RDONLY && fsite(F_CLOSE,&prm)) { G.sh->eff[F_CLOSE]++; return (int)derr(prm&1?EIO:ENOSPC); } return 0; }
static long dread(int fd,void* buf,size_t n,u64 off,bool pos) {
  Ofd* f=ofd(fd); if(!f||(f->flags&O_ACCMODE)==O_WRONLY) return derr(EBADF); dop("read",(long)n,(long)off); Inode& in=IN[f->ino]; u32 prm;
  if(fsite(F_READ,&prm)) { G.sh->eff[F_READ]++; if((prm>>8)&1) D.dead_r=1; return derr(EIO); }
  if(D.dead_r) { G.sh->eff[F_READ]++; return derr(EIO); }
  if(pos) off=off; else off=f->off; size_t av= off<in.n?in.n-off:0; if(n>av) n=av;
  if(D.benign && n>1) { u32 k=wchoose(6); if(k==5) { G.sh->benign++; return derr(EINTR); } if(k==4) { G.sh->benign++; n=1+wchoose((u32)(n>65535?65535:n)); } }
  if(n) memcpy(buf,in.d+off,n); if(!pos) f->off+=n; return (long)n; }
static long dwrite(int fd,const void* buf,size_t n,u64 off,bool pos) {
  Ofd* f=ofd(fd); if(!f||(f->flags&O_ACCMODE)==O_RDONLY) return derr(EBADF); dop("write",(long)n,(long)off); Inode& in=IN[f->ino]; u32 prm=0;
  if(!pos) off=(f->flags&O_APPEND)?in.n:f->off;
  if(D.crashed || fsite(F_CRASH,&prm)) { if(!D.crashed) { D.crashed=true; G.sh->eff[F_CRASH]++; size_t k= n?prm%(n+1):0; if(k) { setsize(in,off+k>in.n?off+k:in.n); memcpy(in.d+off,buf,k); } } if(!pos) f->off=off+n; return (long)n; }
  if(fsite(F_WRITE,&prm)) { G.sh->eff[F_WRITE]++; int e= (prm&1)?EIO:ENOSPC; if((prm>>8)&1) D.dead_w=(u32)e; size_t k= ((prm>>1)&1) && n? (prm>>9)%n : 0;
    if(k) { if(off+k>in.n) setsize(in,off+k); memcpy(in.d+off,buf,k); if(!pos) f->off=off+k; if(!((prm>>2)&1)) { if(!D.dead_w) D.dead_w=(u32)e; return (long)k; } }
    return derr(e); }
  if(D.dead_w) { G.sh->eff[F_WRITE]++; return derr((int)D.dead_w); }
  u64 end=off+n; if(end>in.n && D.limit!=~0ull) { u64 t=total(); u64 room= D.limit>t?D.limit-t:0; if(end-in.n>room) { u64 ne=in.n+room; G.sh->eff[F_WRITE]++; if(ne<=off) return derr(ENOSPC); n=ne-off; } }
  if(D.benign && n>1) { u32 k=wchoose(6); if(k==5) { G.sh->benign++; return derr(EINTR); } if(k==4) { G.sh->benign++; n=1+wchoose((u32)(n>65535?65535:n)); } }
  if(off+n>in.n) setsize(in,off+n); if(n) memcpy(in.d+off,buf,n); if(!pos) f->off=off+n; return (long)n; }
static long dlseek(int fd,long o,int wh) { Ofd* f=ofd(fd); if(!f) return derr(EBADF); long b= wh==SEEK_SET?0:wh==SEEK_CUR?(long)f->off:(long)IN[f->ino].n; if(b+o<0) return derr(EINVAL); f->off=(u64)(b+o); return b+o; }
static int dtrunc(int fd,long len) { Ofd* f=ofd(fd); if(!f||(f->flags&O_ACCMODE)==O_RDONLY) return (int)derr(EBADF); dop("truncate",len,0); u32 prm; if(crashnow(&prm)) return 0; if(fsite(F_META,&prm)) { G.sh->eff[F_META]++; return (int)derr(EIO); } 
  Inode& in=IN[f->ino]; if((u64)len>in.n && D.limit!=~0ull) { u64 t=total(); if(t+(u64)len-in.n>D.limit) return (int)derr(ENOSPC); } setsize(in,(size_t)len); return 0; }
static void fillstat(int i,struct stat* s) { memset(s,0,sizeof *s); Inode& n=IN[i]; s->st_dev=0x51; s->st_ino=(ino_t)(i+2); s->st_mode=S_IFREG|n.mode; s->st_nlink=1; s->st_size=(off_t)n.n; s->st_blksize=4096; s->st_blocks=(blkcnt_t)((n.n+511)/512); s->st_mtime=1700000000; }
static int dfstat(int fd,struct stat* s) { Ofd* f=ofd(fd); if(!f) return (int)derr(EBADF); u32 prm; if(fsite(F_META,&prm)) { G.sh->eff[F_META]++; return (int)derr(EIO); } fillstat(f->ino,s); return 0; }
static int dstat(const char* p,struct stat* s) { if(!strcmp(p,"/simfs/")) { memset(s,0,sizeof *s); s->st_mode=S_IFDIR|0755; return 0; } int i=look(p); if(i<0) return (int)derr(ENOENT); fillstat(i,s); return 0; }
static int dflock(int fd,int op) { Ofd* f=ofd(fd); if(!f) return (int)derr(EBADF); Inode& n=IN[f->ino]; int o=op&~4;
  if(o==8) { unlockfd(*f); return 0; }
  if(o==2) { if((n.ex && !f->hasex) || n.shl-(f->hassh?1:0)>0) return (int)derr(EWOULDBLOCK); unlockfd(*f); n.ex=1; f->hasex=true; return 0; }
  if(o==1) { if(n.ex && !f->hasex) return (int)derr(EWOULDBLOCK); unlockfd(*f); n.shl++; f->hassh=true; return 0; }
  return (int)derr(EINVAL); }
static int dunlink(const char* p) { int i=look(p); dop("unlink",i,0); if(i<0) return (int)derr(ENOENT); if(crashnow(nullptr)) return 0; IN[i].linked=false; drop(i); return 0; }
static int drename(const char* a,const char* b) { int i=look(a); dop("rename",i,0); if(i<0) return (int)derr(ENOENT); if(crashnow(nullptr)) return 0; u32 prm; if(fsite(F_META,&prm)) { G.sh->eff[F_META]++; return (int)derr(EIO); } int j=look(b); if(j==i) return 0; if(j>=0) { IN[j].linked=false; drop(j); } copystr(IN[i].path,sizeof IN[i].path,b); return 0; }
// FILE* on simulated descriptors
static ssize_t ck_read(void* c,char* b,size_t n) { Rt g; long r=dread((int)(long)c,b,n,0,false); g.e=errno; return r; }
static ssize_t ck_write(void* c,const char* b,size_t n) { Rt g; long r=dwrite((int)(long)c,b,n,0,false); g.e=errno; return r<0?0:r; }
static int ck_seek(void* c,off64_t* o,int w) { Rt g; long r=dlseek((int)(long)c,*o,w); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void* c) { Rt g; int r=dclose((int)(long)c); g.e=errno; return r; }
static int modeflags(const char* m) { bool plus=strchr(m,'+')!=nullptr; int f= m[0]=='r'?(plus?O_RDWR:O_RDONLY):m[0]=='w'?((plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC):((plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND); if(strchr(m,'x')) f|=O_EXCL; return f; }
static FILE* mkfile(int fd,const char* m) { cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE* f=fopencookie((void*)(long)fd,m,io); if(!f) { dclose(fd); return nullptr; } for(int i=0;i<NFD;i++) if(!FM[i].f) { FM[i].f=f; FM[i].fd=fd; if(i>=nFM) nFM=i+1; break; } return f; }
static int filefd(FILE* f) { for(int i=0;i<nFM;i++) if(FM[i].f==f) return FM[i].fd; return -1; }
#define DISKCALL(expr) do { Rt g; auto r_=(expr); g.e=errno; return r_; } while(0)
}
extern "C" {
static int do_open(const char* p,int fl,u32 mode) { if(simpath(p)&&dk()) { if(G.active) sync_point(); DISKCALL(dopen(p,fl,mode)); } return (int)rawerr(rawcall(SYS_openat,AT_FDCWD,(long)p,fl|O_LARGEFILE,mode)); }
#define MODE u32 mode=0; if(fl&(O_CREAT|O_TMPFILE)) { va_list ap; va_start(ap,fl); mode=va_arg(ap,u32); va_end(ap); }
SIM_API int open(const char* p,int fl,...) { MODE return do_open(p,fl,mode); }
SIM_API int open64(const char* p,int fl,...) { MODE return do_open(p,fl,mode); }
SIM_API int openat(int d,const char* p,int fl,...) { MODE if(simpath(p)&&dk()) return do_open(p,fl,mode); return (int)rawerr(rawcall(SYS_openat,d,(long)p,fl,mode)); }
SIM_API int openat64(int d,const char* p,int fl,...) { MODE if(simpath(p)&&dk()) return do_open(p,fl,mode); return (int)rawerr(rawcall(SYS_openat,d,(long)p,fl,mode)); }
SIM_API int creat(const char* p,mode_t m) { return do_open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
SIM_API int creat64(const char* p,mode_t m) { return do_open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
SIM_API int close(int fd) { if(simfd(fd)) { if(G.active) sync_point(); DISKCALL(dclose(fd)); } return (int)rawerr(rawcall(SYS_close,fd)); }
#define SP if(G.active) sync_point()
SIM_API ssize_t read(int fd,void* b,size_t n) { if(simfd(fd)) { SP; DISKCALL(dread(fd,b,n,0,false)); } return rawerr(rawcall(SYS_read,fd,(long)b,(long)n)); }
SIM_API ssize_t write(int fd,const void* b,size_t n) { if(simfd(fd)) { SP; DISKCALL(dwrite(fd,b,n,0,false)); } return rawerr(rawcall(SYS_write,fd,(long)b,(long)n)); }
SIM_API ssize_t pread(int fd,void* b,size_t n,off_t o) { if(simfd(fd)) { SP; DISKCALL(dread(fd,b,n,(u64)o,true)); } return rawerr(rawcall(SYS_pread64,fd,(long)b,(long)n,o)); }
SIM_API ssize_t pread64(int fd,void* b,size_t n,off64_t o) { return pread(fd,b,n,o); }
SIM_API ssize_t pwrite(int fd,const void* b,size_t n,off_t o) { if(simfd(fd)) { SP; DISKCALL(dwrite(fd,b,n,(u64)o,true)); } return rawerr(rawcall(SYS_pwrite64,fd,(long)b,(long)n,o)); }
SIM_API ssize_t pwrite64(int fd,const void* b,size_t n,off64_t o) { return pwrite(fd,b,n,o); }
SIM_API ssize_t readv(int fd,const iovec* v,int c) { if(simfd(fd)) { SP; Rt g; ssize_t t=0; for(int i=0;i<c;i++) { long r=dread(fd,v[i].iov_base,v[i].iov_len,0,false); if(r<0) { if(!t) { g.e=errno; return -1; } break; } t+=r; if((size_t)r<v[i].iov_len) break; } return t; } return rawerr(rawcall(SYS_readv,fd,(long)v,c)); }
SIM_API ssize_t writev(int fd,const iovec* v,int c) { if(simfd(fd)) { SP; Rt g; ssize_t t=0; for(int i=0;i<c;i++) { if(!v[i].iov_len) continue; long r=dwrite(fd,v[i].iov_base,v[i].iov_len,0,false); if(r<0) { if(!t) { g.e=errno; return -1; } break; } t+=r; if((size_t)r<v[i].iov_len) break; } return t; } return rawerr(rawcall(SYS_writev,fd,(long)v,c)); }
SIM_API off_t lseek(int fd,off_t o,int w) noexcept { if(simfd(fd)) { DISKCALL(dlseek(fd,o,w)); } return rawerr(rawcall(SYS_lseek,fd,o,w)); }
SIM_API off64_t lseek64(int fd,off64_t o,int w) noexcept { return lseek(fd,o,w); }
SIM_API int ftruncate(int fd,off_t n) noexcept { if(simfd(fd)) { DISKCALL(dtrunc(fd,n)); } return (int)rawerr(rawcall(SYS_ftruncate,fd,n)); }
SIM_API int ftruncate64(int fd,off64_t n) noexcept { return ftruncate(fd,n); }
SIM_API int fstat(int fd,struct stat* s) noexcept { if(simfd(fd)) { DISKCALL(dfstat(fd,s)); } return (int)rawerr(rawcall(SYS_fstat,fd,(long)s)); }
SIM_API int fstat64(int fd,struct stat64* s) noexcept { return fstat(fd,(struct stat*)s); }
SIM_API int stat(const char* p,struct stat* s) noexcept { if(simpath(p)&&dk()) { DISKCALL(dstat(p,s)); } return (int)rawerr(rawcall(SYS_stat,(long)p,(long)s)); }
SIM_API int stat64(const char* p,struct stat64* s) noexcept { return stat(p,(struct stat*)s); }
SIM_API int lstat(const char* p,struct stat* s) noexcept { if(simpath(p)&&dk()) { DISKCALL(dstat(p,s)); } return (int)rawerr(rawcall(SYS_lstat,(long)p,(long)s)); }
SIM_API int lstat64(const char* p,struct stat64* s) noexcept { return lstat(p,(struct stat*)s); }
SIM_API int access(const char* p,int m) noexcept { if(simpath(p)&&dk()) { Rt g; int i=look(p); if(i<0) { g.e=ENOENT; return -1; } if((m&W_OK)&&IN[i].ro) { g.e=EACCES; return -1; } return 0; } return (int)rawerr(rawcall(SYS_access,(long)p,m)); }
SIM_API int fsync(int fd) { if(simfd(fd)) { SP; Rt g; u32 prm; dop("fsync",fd,0); if(fsite(F_META,&prm)) { G.sh->eff[F_META]++; g.e=EIO; return -1; } return 0; } return (int)rawerr(rawcall(SYS_fsync,fd)); }
SIM_API int fdatasync(int fd) { if(simfd(fd)) return fsync(fd); return (int)rawerr(rawcall(SYS_fdatasync,fd)); }
SIM_API int flock(int fd,int op) noexcept { if(simfd(fd)) { DISKCALL(dflock(fd,op)); } return (int)rawerr(rawcall(SYS_flock,fd,op)); }
SIM_API int fcntl(int fd,int cmd,...) { va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); if(simfd(fd)) { if(cmd==F_GETFL) { Ofd* f=ofd(fd); return f?f->flags:-1; } return 0; } return (int)rawerr(rawcall(SYS_fcntl,fd,cmd,a)); }
SIM_API int unlink(const char* p) noexcept { if(simpath(p)&&dk()) { DISKCALL(dunlink(p)); } return (int)rawerr(rawcall(SYS_unlink,(long)p)); }
SIM_API int remove(const char* p) noexcept { if(simpath(p)&&dk()) { DISKCALL(dunlink(p)); } long r=rawcall(SYS_unlink,(long)p); if(r==-EISDIR||r==-EPERM) r=rawcall(SYS_rmdir,(long)p); return (int)rawerr(r); }
SIM_API int rename(const char* a,const char* b) noexcept { if(simpath(a)&&dk()) { DISKCALL(drename(a,b)); } return (int)rawerr(rawcall(SYS_rename,(long)a,(long)b)); }
SIM_API int poll(struct pollfd* p,unsigned long n,int t) { return (int)rawerr(rawcall(SYS_poll,(long)p,(long)n,t)); }
SIM_API int ioctl(int fd,unsigned long r,...) noexcept { va_list ap; va_start(ap,r); long a=va_arg(ap,long); va_end(ap); if(simfd(fd)) { Ofd* f=ofd(fd); if(f && r==0x541B) { *(int*)a=(int)(IN[f->ino].n>f->off?IN[f->ino].n-f->off:0); return 0; } errno=ENOTTY; return -1; } return (int)rawerr(rawcall(SYS_ioctl,fd,(long)r,a)); }
SIM_API FILE* fopen(const char* p,const char* m) { if(simpath(p)&&dk()) { if(G.active) sync_point(); Rt g; int fd=dopen(p,modeflags(m),0644); if(fd<0) { g.e=errno; return nullptr; } return mkfile(fd,m); } REAL(FILE*,fopen,const char*,const char*); return real(p,m); }
SIM_API FILE* fopen64(const char* p,const char* m) { return fopen(p,m); }
SIM_API int fileno(FILE* f) noexcept { int fd=filefd(f); if(fd>=0) return fd; REAL(int,fileno,FILE*); return real(f); }
SIM_API int fclose(FILE* f) { REAL(int,fclose,FILE*); if(filefd(f)>=0) { Rt g; for(int i=0;i<nFM;i++) if(FM[i].f==f) FM[i].f=nullptr; int r=real(f); g.e=errno; return r; } return real(f); }
}
namespace sim {
void disk_put(const char* p,const void* d,size_t n) { Rt g; int i=look(p); if(i<0) i=mk(p); setsize(IN[i],n); if(n) memcpy(IN[i].d,d,n); }
bool disk_exists(const char* p) { Rt g; return look(p)>=0; }
size_t disk_size(const char* p) { Rt g; int i=look(p); return i<0?0:IN[i].n; }
size_t disk_read(const char* p,void* o,size_t n) { Rt g; int i=look(p); if(i<0) return 0; if(n>IN[i].n) n=IN[i].n; memcpy(o,IN[i].d,n); return n; }
std::string disk_get(const char* p) { int i; { Rt g; i=look(p); } if(i<0) return std::string(); return std::string((const char*)IN[i].d,IN[i].n); }
void disk_remove(const char* p) { Rt g; int i=look(p); if(i>=0) { IN[i].linked=false; drop(i); } }
void disk_readonly(const char* p,bool ro) { Rt g; int i=look(p); if(i>=0) IN[i].ro=ro; }
void disk_limit(uint64_t b) { D.limit=b; }
void disk_crash_clear() { D.crashed=false; }
bool disk_crashed() { return D.crashed; }
unsigned disk_open_fds() { unsigned n=0; for(int i=0;i<NFD;i++) n+=FD[i].used; return n; }
uint64_t disk_ops() { return G.sh->diskops; }
void disk_benign(bool on) { D.benign=on; }
uint64_t benign_count() { return G.sh->benign; }
void disk_heal() { D.dead_r=D.dead_w=0; }
}
