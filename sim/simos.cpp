// Operating-system seams: heap, clock, disk, thread primitives. All by symbol interposition from the executable.
#include "core.h"
#include <new>
#include <set>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <pthread.h>
#include <stdio.h>
#include <malloc.h>
#include <ftw.h>
#include <cxxabi.h>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
namespace sim {
static bool g_child=false;
bool owns_address(Proc*, void*);
// ---------------------------------------------------------------- heap accounting
struct Ent { void* p; Proc* o; size_t n; };
static Ent* tab=nullptr; static size_t tcap=0, tused=0; static bool g_acct=false;
static size_t th(void*p){ return (size_t)mix((uint64_t)p); }
static void tgrow(){ size_t oc=tcap; Ent*ot=tab; tcap=tcap?tcap*2:1<<16; tab=(Ent*)__libc_calloc(tcap,sizeof(Ent)); tused=0; for(size_t i=0;i<oc;i++) if(ot[i].p&&ot[i].p!=(void*)1){ size_t k=th(ot[i].p)&(tcap-1); while(tab[k].p) k=(k+1)&(tcap-1); tab[k]=ot[i]; tused++; } __libc_free(ot); }
static void tadd(void*p,size_t n){ if(tused*2>=tcap) tgrow(); size_t k=th(p)&(tcap-1); while(tab[k].p&&tab[k].p!=(void*)1) k=(k+1)&(tcap-1); if(!tab[k].p) tused++; tab[k]={p,cproc,n}; cproc->bytes+=(int64_t)n; cproc->blocks++; }
static void tdel(void*p){ if(!tcap) return; size_t k=th(p)&(tcap-1); while(tab[k].p){ if(tab[k].p==p){ tab[k].o->bytes-=(int64_t)tab[k].n; tab[k].o->blocks--; tab[k].p=(void*)1; return; } k=(k+1)&(tcap-1); } }
static inline void on_alloc(void*p,size_t n){ if(g_acct&&p&&!in_sim()&&cproc&&!cproc->host) tadd(p,n); }
static inline void on_free(void*p){ if(g_acct&&p) tdel(p); }
void account(bool on){ g_acct=on; }
// ---------------------------------------------------------------- clock
static int64_t wall_off=1700000000000000000LL;
void wall_jump(int64_t n){ wall_off+=n; count_fault("wall clock step"); }
static struct timespec ts_of(int64_t v){ struct timespec t; t.tv_sec=v/1000000000; t.tv_nsec=v%1000000000; if(t.tv_nsec<0){t.tv_nsec+=1000000000;t.tv_sec--;} return t; }
// ---------------------------------------------------------------- disk
static DiskPlan plan; static DiskFired fired; static std::string g_scratch; static std::map<int,std::string> tracked; static bool g_tracking=false;
static bool g_stream=false; static long nopen=0,nclose=0,nwrites=0;
void set_disk(const DiskPlan& p){ InSim g; plan=p; fired=DiskFired{}; nopen=nclose=nwrites=0; g_tracking=true; }
DiskFired disk_fired(){ return fired; }
static int rm_cb(const char*p,const struct stat*,int,struct FTW*){ return remove(p); }
std::string scratch(){ InSim g; if(g_scratch.empty()){ const char* base=getenv("SIM_SCRATCH"); char t[512]; snprintf(t,512,"%s/run.XXXXXX",base?base:"/tmp"); if(!mkdtemp(t)) infra("mkdtemp %s: %s",t,strerror(errno)); g_scratch=t; } return g_scratch; }
void scratch_cleanup(){ if(!g_scratch.empty()&&g_scratch.find("/run.")!=std::string::npos) nftw(g_scratch.c_str(),rm_cb,16,FTW_DEPTH|FTW_PHYS); }
static bool ours(const std::string& path){
  if(!g_tracking||g_scratch.empty()) return false; std::string a=path; if(a.empty()) return false; if(a[0]!='/'){ char b[4096]; if(getcwd(b,4096)) a=std::string(b)+"/"+a; }
  if(a.compare(0,g_scratch.size(),g_scratch)) return false;
  if(!plan.only_suffix.empty()){ size_t n=plan.only_suffix.size(); if(a.size()<n||a.compare(a.size()-n,n,plan.only_suffix)) return false; }
  return true;
}
static int on_open(const char* path){ yield("open"); nopen++; fired.opens++; if(plan.open_fail&&nopen==plan.open_fail){ fired.open_fail++; fired.ranks|=1ull<<(cur_rank()&63); count_fault("open fails"); return plan.open_errno?plan.open_errno:EACCES; } (void)path; return 0; }
static ssize_t do_write(int fd,const void*b,size_t n,bool stream=false){
  yield("write"); g_stream=stream; nwrites++; fired.writes++;
  if(plan.kill_after_writes>=0&&nwrites>plan.kill_after_writes){ count_fault("process killed in a write"); kill_job(); }
  if(plan.p_eintr>0&&choose(OS,2,plan.p_eintr,"EINTR")){ fired.eintr++; count_fault("EINTR"); errno=EINTR; return -1; }
  if(plan.write_budget>=0){ if(plan.write_budget==0&&n){ fired.write_err++; (g_stream?fired.soft:fired.ranks)|=1ull<<(cur_rank()&63); count_fault(plan.write_errno==EIO?"write EIO":"write ENOSPC"); errno=plan.write_errno?plan.write_errno:ENOSPC; return -1; } if((long)n>plan.write_budget) n=plan.write_budget; plan.write_budget-=n; }
  if(n>1&&plan.p_short>0){ int v=choose(OS,4,plan.p_short,"short write"); if(v){ size_t m= v==1?1: v==2?n/2:n-1; if(plan.write_budget>=0) plan.write_budget+=n-m; n=m; fired.short_io++; count_fault("short write"); } }
  return syscall(1,fd,b,n);
}
static ssize_t do_read(int fd,void*b,size_t n){
  yield("read"); fired.reads++;
  if(plan.p_eintr>0&&choose(OS,2,plan.p_eintr,"EINTR")){ fired.eintr++; count_fault("EINTR"); errno=EINTR; return -1; }
  if(plan.read_budget>=0){ if(plan.read_budget==0){ fired.read_err++; fired.ranks|=1ull<<(cur_rank()&63); count_fault("read EIO"); errno=plan.read_errno?plan.read_errno:EIO; return -1; } if((long)n>plan.read_budget) n=plan.read_budget; }
  if(n>1&&plan.p_short>0){ int v=choose(OS,4,plan.p_short,"short read"); if(v){ size_t m=v==1?1:v==2?std::min<size_t>(n,7):std::min<size_t>(n,64); n=m; fired.short_io++; count_fault("short read"); } }
  ssize_t r=syscall(0,fd,b,n); if(r>0&&plan.read_budget>=0) plan.read_budget-=r; return r;
}
static bool on_close_written(){ nclose++; if(plan.close_fail&&nclose==plan.close_fail){ fired.close_fail++; fired.ranks|=1ull<<(cur_rank()&63); count_fault("close fails"); return false; } return true; }
// C stdio files (not libstdc++'s): a cookie stream over a real descriptor
struct Cookie { int fd; bool w; };
static ssize_t ck_write(void*c,const char*b,size_t n){ InSim g; size_t off=0; while(off<n){ ssize_t r=do_write(((Cookie*)c)->fd,b+off,n-off,true); if(r<0){ if(errno==EINTR) continue; return off?(ssize_t)off:0; } off+=r; } return (ssize_t)off; }
static ssize_t ck_read(void*c,char*b,size_t n){ InSim g; for(;;){ ssize_t r=do_read(((Cookie*)c)->fd,b,n); if(r<0&&errno==EINTR) continue; return r; } }
static int ck_seek(void*c,off64_t*o,int wh){ off_t r=lseek(((Cookie*)c)->fd,*o,wh); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void*c){ InSim g; Cookie*k=(Cookie*)c; yield("close"); syscall(3,k->fd); delete k; return 0; /* never fails: p4est itself ignores that, and p4est is not under test */ }
static FILE* real_fopen(const char*p,const char*m){ static auto f=(FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,"fopen"); return f(p,m); }
static bool from_libstdcxx(void*ra){ Dl_info i; return dladdr(ra,&i)&&i.dli_fname&&strstr(i.dli_fname,"libstdc++"); }
static FILE* open_file(const char*p,const char*m,void*ra){
  if(!g_child||in_sim()||!ours(p)) return real_fopen(p,m);
  InSim g; if(int e=on_open(p)){ errno=e; return nullptr; }
  bool w=strchr(m,'w')||strchr(m,'a')||strchr(m,'+');
  if(from_libstdcxx(ra)){ FILE*f=real_fopen(p,m); if(f) tracked[fileno(f)]=w?"w":"r"; return f; }
  int fl= strchr(m,'+')?O_RDWR:w?O_WRONLY:O_RDONLY; if(strchr(m,'w')) fl|=O_CREAT|O_TRUNC; if(strchr(m,'a')) fl|=O_CREAT|O_APPEND;
  int fd=(int)syscall(2,p,fl,0666); if(fd<0) return nullptr;
  cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; return fopencookie(new Cookie{fd,w},m,io);
}
void os_child_init(){ g_child=true; }
// ---------------------------------------------------------------- thread primitives
struct Mx { Fiber* owner=nullptr; int n=0; };
struct Rw { int r=0; Fiber* w=nullptr; }; typedef std::pair<Proc*,void*> Obj; // simulated processes share addresses
template<class T> struct Table { std::map<Obj,T> m; T& operator[](void*p){ return m[{cproc,p}]; } bool count(void*p){ return m.count({cproc,p}); } };
static Table<Rw> rws; static Table<Mx> mxs; static Table<int> onces; static Table<uint64_t> conds;
static uint64_t n_preempt=0;
static bool tmode(){ return cur&&cur->tid&&!in_sim(); }
bool preempt_on=false;
void set_preempt(bool b){ preempt_on=b; }
} // namespace sim
namespace sim { int fill_pattern(); bool heap_decoy(); }
using namespace sim;
extern "C" {
void* malloc(size_t n){ bool ours=g_child&&cproc&&!cproc->host&&!in_sim()&&n<=65536; void*d= ours&&heap_decoy()?__libc_malloc(n):nullptr; void*p=__libc_malloc(n); if(d) __libc_free(d); if(ours&&p) if(int f=fill_pattern()) memset(p,f,n); on_alloc(p,n); return p; }
void free(void*p){ on_free(p); __libc_free(p); }
void* calloc(size_t a,size_t b){ void*p=__libc_calloc(a,b); on_alloc(p,a*b); return p; }
void* realloc(void*q,size_t n){ on_free(q); void*p=__libc_realloc(q,n); if(n) on_alloc(p,n); return p; }
void* memalign(size_t a,size_t n){ void*p=__libc_memalign(a,n); on_alloc(p,n); return p; }
int posix_memalign(void**o,size_t a,size_t n){ void*p=__libc_memalign(a,n); if(!p) return ENOMEM; on_alloc(p,n); *o=p; return 0; }
void* aligned_alloc(size_t a,size_t n){ void*p=__libc_memalign(a,n); on_alloc(p,n); return p; }
}
// operator new: guarded blocks
namespace { struct Hd { size_t n; uint64_t magic; }; const uint64_t MG=0x51eed0fa110c8edULL, FR=0xdeadf4eedb10c5ULL; const uint64_t TAIL=0x7e57ab1e0ddba11ULL; }
namespace sim { int fill_pattern(); }
static void* nw(size_t n, bool nothrow){
  if(cproc&&!in_sim()&&!cproc->host&&g_child){
    cproc->allocs++;
    if(cproc->fail_at&&cproc->allocs==cproc->fail_at){ cproc->fail_at=0; cproc->fail_fired=true; { InSim g; count_fault("allocation fails"); } if(nothrow) return nullptr; throw std::bad_alloc(); }
  }
  if(n>(size_t)1<<40){ if(nothrow) return nullptr; throw std::bad_alloc(); }
  void*d= cproc&&!cproc->host&&!in_sim()&&g_child&&n<=65536&&heap_decoy()?__libc_malloc(n+32):nullptr;
  char*b=(char*)__libc_malloc(n+32); if(d) __libc_free(d); if(!b){ if(nothrow) return nullptr; throw std::bad_alloc(); }
  Hd*h=(Hd*)b; h->n=n; h->magic=MG; memcpy(b+16+n,&TAIL,8); on_alloc(b,n);
  if(int f=fill_pattern()) if(!in_sim()) memset(b+16,f,n);
  return b+16;
}
static void dl(void*p) noexcept {
  if(!p) return; char*b=(char*)p-16; Hd*h=(Hd*)b;
  if(h->magic!=MG){ if(h->magic==FR) fail("memory","rank %d: memory freed twice",cproc->rank); fail("memory","rank %d: memory in front of a block was overwritten, or the pointer was not allocated with new",cproc->rank); }
  if(memcmp(b+16+h->n,&TAIL,8)) fail("memory","rank %d: memory behind a block of %zu bytes was overwritten",cproc->rank,h->n);
  on_free(b); h->magic=FR; if(fill_pattern()&&!in_sim()) memset(p,0xDD,h->n); __libc_free(b);
}
void* operator new(size_t n){ return nw(n,false); }
void* operator new[](size_t n){ return nw(n,false); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return nw(n,true); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return nw(n,true); }
void operator delete(void*p) noexcept { dl(p); }
void operator delete[](void*p) noexcept { dl(p); }
void operator delete(void*p,size_t) noexcept { dl(p); }
void operator delete[](void*p,size_t) noexcept { dl(p); }
void operator delete(void*p,const std::nothrow_t&) noexcept { dl(p); }
void operator delete[](void*p,const std::nothrow_t&) noexcept { dl(p); }
void* operator new(size_t n,std::align_val_t a){ void*p=__libc_memalign((size_t)a,n); on_alloc(p,n); return p; }
void* operator new[](size_t n,std::align_val_t a){ void*p=__libc_memalign((size_t)a,n); on_alloc(p,n); return p; }
void operator delete(void*p,std::align_val_t) noexcept { on_free(p); __libc_free(p); }
void operator delete[](void*p,std::align_val_t) noexcept { on_free(p); __libc_free(p); }
void operator delete(void*p,size_t,std::align_val_t) noexcept { on_free(p); __libc_free(p); }
void operator delete[](void*p,size_t,std::align_val_t) noexcept { on_free(p); __libc_free(p); }
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) __THROW {
  if(!g_child){ return (int)syscall(228,c,t); }
  clock_tick();
  int64_t m=cproc?cproc->mono_off:0,w=cproc?cproc->wall_skew:0;
  if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE||c==CLOCK_TAI) *t=ts_of(wall_off+w+g_now); else if(c==CLOCK_PROCESS_CPUTIME_ID||c==CLOCK_THREAD_CPUTIME_ID) *t=ts_of(cproc?cproc->cpu_ns:0); else *t=ts_of(m+g_now);
  return 0;
}
int gettimeofday(struct timeval*tv,void*) __THROW { struct timespec t; clock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
time_t time(time_t*o) __THROW { struct timespec t; clock_gettime(CLOCK_REALTIME,&t); if(o)*o=t.tv_sec; return t.tv_sec; }
clock_t clock(void) __THROW { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec*1000000+t.tv_nsec/1000; }
// a signal may end a sleep early: the fraction slept, and what was left
static int64_t sleep_some(int64_t v){ if(!g_child||v<=0) return 0; static const int part[4]={4,0,1,3}; int k; { InSim g; k=g_faults&&cur&&!cur->quiet?choose(OS,4,0.1,"sleep interrupted"):0; } int64_t d=k?v/4*part[k]:v; sleep_ns(d); if(k) count_fault("sleep interrupted",1); return v-d; }
int nanosleep(const struct timespec*a,struct timespec*r){ if(a->tv_nsec<0||a->tv_nsec>999999999||a->tv_sec<0){ errno=EINVAL; return -1; } int64_t left=sleep_some(a->tv_sec*1000000000LL+a->tv_nsec); if(!left) return 0; if(r) *r=ts_of(left); errno=EINTR; return -1; }
int poll(struct pollfd*f,nfds_t n,int ms){ if(g_child&&n==0&&ms>=0){ if(sleep_some(ms*1000000LL)){ errno=EINTR; return -1; } return 0; } return (int)syscall(SYS_poll,f,n,ms); }
int select(int n,fd_set*a,fd_set*b,fd_set*c,struct timeval*t){ if(g_child&&n==0&&t){ if(sleep_some(t->tv_sec*1000000000LL+t->tv_usec*1000LL)){ errno=EINTR; return -1; } return 0; } return (int)syscall(SYS_select,n,a,b,c,t); }
int clock_nanosleep(clockid_t c,int flags,const struct timespec*a,struct timespec*rem){ int64_t v=a->tv_sec*1000000000LL+a->tv_nsec; if(g_child){ bool rel=!(flags&TIMER_ABSTIME); if(!rel){ struct timespec n; clock_gettime(c,&n); v-=n.tv_sec*1000000000LL+n.tv_nsec; } if(v>0){ int64_t left=sleep_some(v); if(left){ if(rel&&rem) *rem=ts_of(left); return EINTR; } } } return 0; }
int usleep(useconds_t u){ if(sleep_some(u*1000LL)){ errno=EINTR; return -1; } return 0; }
unsigned sleep(unsigned s){ return (unsigned)((sleep_some(s*1000000000LL)+500000000)/1000000000); }
// disk
FILE* fopen(const char*p,const char*m){ return open_file(p,m,__builtin_return_address(0)); }
FILE* fopen64(const char*p,const char*m){ return open_file(p,m,__builtin_return_address(0)); }
int fclose(FILE*f){ static auto rf=(int(*)(FILE*))dlsym(RTLD_NEXT,"fclose"); if(!g_child||in_sim()||!g_tracking) return rf(f); int fd=fileno(f); auto it=tracked.find(fd); bool bad=false; if(it!=tracked.end()){ InSim g; yield("close"); bool w=it->second=="w"; tracked.erase(fd); if(w) bad=!on_close_written(); } int r=rf(f); if(bad){ errno=EIO; return EOF; } return r; }
ssize_t write(int fd,const void*b,size_t n){ if(fd==1&&g_child&&!in_sim()&&capturing()){ InSim g; out_raw(cproc,b,n); return (ssize_t)n; } if(g_child&&g_tracking&&!in_sim()&&tracked.count(fd)){ InSim g; return do_write(fd,b,n); } return syscall(1,fd,b,n); }
ssize_t read(int fd,void*b,size_t n){ if(g_child&&g_tracking&&!in_sim()&&tracked.count(fd)){ InSim g; return do_read(fd,b,n); } return syscall(0,fd,b,n); }
ssize_t writev(int fd,const struct iovec*v,int n){ if(g_child&&g_tracking&&!in_sim()&&tracked.count(fd)){ InSim g; std::string s; for(int i=0;i<n;i++) s.append((const char*)v[i].iov_base,v[i].iov_len); return do_write(fd,s.data(),s.size()); } return syscall(20,fd,v,n); }
// threads
static int(*rl)(pthread_mutex_t*); static int(*ru)(pthread_mutex_t*); static int(*rt)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t*m) __THROWNL { if(!tmode()){ if(!rl) rl=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock"); return rl(m); }
  InSim g; yield("mutex lock"); Fiber*me=cur; if(mxs[m].owner==me){ if((m->__data.__kind&3)==1){ mxs[m].n++; return 0; } }
  if(mxs[m].owner) block("mutex lock",[o=Obj(cproc,m)]{ return mxs.m[o].owner==nullptr; }); mxs[m].owner=me; mxs[m].n=1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t*m) __THROWNL { if(!tmode()){ if(!rt) rt=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_trylock"); return rt(m); } InSim g; yield("mutex trylock"); if(mxs[m].owner){ poll_failed("mutex trylock"); return EBUSY; } mxs[m].owner=cur; mxs[m].n=1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t*m) __THROWNL { if(!tmode()||!mxs.count(m)||!mxs[m].owner){ if(!ru) ru=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_unlock"); return ru(m); } InSim g; if(--mxs[m].n==0){ mxs[m].owner=nullptr; g_progress++; } yield("mutex unlock"); return 0; }
pthread_t pthread_self(void) __THROW { static auto rs=(pthread_t(*)(void))dlsym(RTLD_NEXT,"pthread_self"); if(g_child&&cur&&cur->tid&&!in_sim()) return (pthread_t)(0x7a0000000000ul+4096ul*cur->tid); return rs(); }
// reader-writer locks and condition variables of threads in a run_threads section
#define REAL(f,T) static auto rf=(T)dlsym(RTLD_NEXT,f)
int pthread_rwlock_rdlock(pthread_rwlock_t*l) __THROWNL { if(!tmode()){ REAL("pthread_rwlock_rdlock",int(*)(pthread_rwlock_t*)); return rf(l); } InSim g; yield("read lock"); if(rws[l].w) block("read lock",[o=Obj(cproc,l)]{ return !rws.m[o].w; }); rws[l].r++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*l) __THROWNL { if(!tmode()){ REAL("pthread_rwlock_wrlock",int(*)(pthread_rwlock_t*)); return rf(l); } InSim g; yield("write lock"); if(rws[l].w||rws[l].r) block("write lock",[o=Obj(cproc,l)]{ return !rws.m[o].w&&!rws.m[o].r; }); rws[l].w=cur; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t*l) __THROWNL { if(!tmode()){ REAL("pthread_rwlock_tryrdlock",int(*)(pthread_rwlock_t*)); return rf(l); } InSim g; yield("read lock"); if(rws[l].w){ poll_failed("read lock"); return EBUSY; } rws[l].r++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t*l) __THROWNL { if(!tmode()){ REAL("pthread_rwlock_trywrlock",int(*)(pthread_rwlock_t*)); return rf(l); } InSim g; yield("write lock"); if(rws[l].w||rws[l].r){ poll_failed("write lock"); return EBUSY; } rws[l].w=cur; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*l) __THROWNL { if(!tmode()||!rws.count(l)||(!rws[l].w&&!rws[l].r)){ REAL("pthread_rwlock_unlock",int(*)(pthread_rwlock_t*)); return rf(l); } InSim g; if(rws[l].w) rws[l].w=nullptr; else rws[l].r--; g_progress++; yield("unlock"); return 0; }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(!tmode()){ REAL("pthread_cond_wait",int(*)(pthread_cond_t*,pthread_mutex_t*)); return rf(c,m); } InSim g; uint64_t e=conds[c]; mxs[m].owner=nullptr; g_progress++; block("condition",[o=Obj(cproc,c),e]{ return conds.m[o]!=e; }); if(mxs[m].owner) block("mutex lock",[o=Obj(cproc,m)]{ return mxs.m[o].owner==nullptr; }); mxs[m].owner=cur; mxs[m].n=1; return 0; }
int pthread_cond_signal(pthread_cond_t*c) __THROWNL { if(!tmode()){ REAL("pthread_cond_signal",int(*)(pthread_cond_t*)); return rf(c); } InSim g; conds[c]++; g_progress++; yield("signal"); return 0; } // wakes every waiter: a legal spurious wake-up
int pthread_cond_broadcast(pthread_cond_t*c) __THROWNL { if(!tmode()){ REAL("pthread_cond_broadcast",int(*)(pthread_cond_t*)); return rf(c); } InSim g; conds[c]++; g_progress++; yield("broadcast"); return 0; }
int pthread_once(pthread_once_t*o,void(*f)(void)){ static auto ro=(int(*)(pthread_once_t*,void(*)(void)))dlsym(RTLD_NEXT,"pthread_once"); if(!tmode()){ 
    return ro(o,f); }
  if(*o==2) return 0;
  { InSim g; yield("once"); if(onces[o]==1) block("once",[k=Obj(cproc,o)]{ return onces.m[k]!=1; }); if(onces[o]==2||*o==2) return 0; onces[o]=1; }
  try { f(); } catch(...) { InSim g; onces[o]=0; g_progress++; throw; }
  { InSim g; onces[o]=2; *o=2; g_progress++; } return 0; }
int __cxa_guard_acquire(long long int*gd) noexcept(false){ char*b=(char*)gd; if(b[0]) return 0;
  if(!tmode()){ if(b[1]){ if(!in_sim()&&g_child) fail("recursion","recursive initialisation of a function-local static"); } b[1]=1; return 1; }
  InSim g; yield("static init"); if(b[0]) return 0; if(b[1]) block("static init",[b]{ return !b[1]; }); if(b[0]) return 0; b[1]=1; return 1; }
void __cxa_guard_release(long long int*gd) noexcept{ char*b=(char*)gd; b[0]=1; b[1]=0; g_progress++; if(tmode()){ InSim g; yield("static init done"); } }
void __cxa_guard_abort(long long int*gd) noexcept{ char*b=(char*)gd; b[1]=0; g_progress++; if(tmode()){ InSim g; yield("static init aborted"); } }
// instrumented memory accesses of selected translation units
static inline void acc(){ if(!preempt_on||!cur||!cur->tid||in_sim()) return; InSim g; n_preempt++; yield("memory access"); }
#define A(n) void __tsan_##n(void*){ acc(); }
A(read1) A(read2) A(read4) A(read8) A(read16) A(write1) A(write2) A(write4) A(write8) A(write16)
A(unaligned_read2) A(unaligned_read4) A(unaligned_read8) A(unaligned_read16) A(unaligned_write2) A(unaligned_write4) A(unaligned_write8) A(unaligned_write16)
A(vptr_read)
A(volatile_read1) A(volatile_read2) A(volatile_read4) A(volatile_read8) A(volatile_write1) A(volatile_write2) A(volatile_write4) A(volatile_write8)
void __tsan_vptr_update(void**,void*){ acc(); }
void __tsan_func_entry(void*){} void __tsan_func_exit(void){} void __tsan_init(void){}
void __tsan_read_range(void*,unsigned long){ acc(); } void __tsan_write_range(void*,unsigned long){ acc(); }
void __tsan_atomic_thread_fence(int){ acc(); } void __tsan_atomic_signal_fence(int){}
#define AT(B,T) \
 T __tsan_atomic##B##_load(const volatile T*a,int){ acc(); return __atomic_load_n(a,5); } \
 void __tsan_atomic##B##_store(volatile T*a,T v,int){ acc(); __atomic_store_n(a,v,5); g_progress++; } \
 T __tsan_atomic##B##_exchange(volatile T*a,T v,int){ acc(); g_progress++; return __atomic_exchange_n(a,v,5); } \
 T __tsan_atomic##B##_fetch_add(volatile T*a,T v,int){ acc(); g_progress++; return __atomic_fetch_add(a,v,5); } \
 T __tsan_atomic##B##_fetch_sub(volatile T*a,T v,int){ acc(); g_progress++; return __atomic_fetch_sub(a,v,5); } \
 T __tsan_atomic##B##_fetch_and(volatile T*a,T v,int){ acc(); g_progress++; return __atomic_fetch_and(a,v,5); } \
 T __tsan_atomic##B##_fetch_or(volatile T*a,T v,int){ acc(); g_progress++; return __atomic_fetch_or(a,v,5); } \
 T __tsan_atomic##B##_fetch_xor(volatile T*a,T v,int){ acc(); g_progress++; return __atomic_fetch_xor(a,v,5); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T*a,T*e,T v,int,int){ acc(); bool r=__atomic_compare_exchange_n(a,e,v,false,5,5); if(r) g_progress++; return r; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T*a,T*e,T v,int,int){ acc(); bool r=__atomic_compare_exchange_n(a,e,v,false,5,5); if(r) g_progress++; return r; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T*a,T e,T v,int,int){ acc(); __atomic_compare_exchange_n(a,&e,v,false,5,5); g_progress++; return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
}

// ---------------------------------------------------------------- identity and randomness of a process
static bool simproc(){ return g_child&&cproc&&!cproc->host&&cur; }
static struct random_data* rd(){ auto*d=(struct random_data*)cproc->rnd_data; static_assert(sizeof(struct random_data)<=sizeof(cproc->rnd_data)); if(!cproc->rnd_set){ memset(d,0,sizeof *d); initstate_r(1,cproc->rnd,sizeof cproc->rnd,d); cproc->rnd_set=true; } return d; }
static uint32_t entropy(){ InSim g; uint32_t v=(uint32_t)choose(OS,1<<16,1.0,"entropy")<<16; count_fault("entropy read"); return v|(uint32_t)choose(OS,1<<16,1.0,"entropy"); }
extern "C" {
int rand(void) __THROW { REAL("rand",int(*)(void)); if(!simproc()) return rf(); int32_t v; random_r(rd(),&v); return v; }
void srand(unsigned s) __THROW { REAL("srand",void(*)(unsigned)); if(!simproc()) return rf(s); srandom_r(s,rd()); }
long random(void) __THROW { REAL("random",long(*)(void)); if(!simproc()) return rf(); int32_t v; random_r(rd(),&v); return v; }
void srandom(unsigned s) __THROW { REAL("srandom",void(*)(unsigned)); if(!simproc()) return rf(s); srandom_r(s,rd()); }
pid_t getpid(void) __THROW { if(!simproc()) return (pid_t)syscall(39); return 20000+(int)(uintptr_t)(mix((uint64_t)cproc->serial)%5000); }
int gethostname(char*b,size_t n) __THROW { REAL("gethostname",int(*)(char*,size_t)); if(!simproc()) return rf(b,n); if(n){ strncpy(b,"simulated",n); b[n-1]=0; } return 0; }
ssize_t getrandom(void*b,size_t n,unsigned) { REAL("getrandom",ssize_t(*)(void*,size_t,unsigned)); if(!simproc()) return rf(b,n,0); for(size_t i=0;i<n;i++) ((unsigned char*)b)[i]=(unsigned char)entropy(); return (ssize_t)n; }
int getentropy(void*b,size_t n) { REAL("getentropy",int(*)(void*,size_t)); if(!simproc()) return rf(b,n); for(size_t i=0;i<n;i++) ((unsigned char*)b)[i]=(unsigned char)entropy(); return 0; }
unsigned random_device_value(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned random_device_value(void*s){ static unsigned(*rf)(void*)=(unsigned(*)(void*))dlsym(RTLD_NEXT,"_ZNSt13random_device9_M_getvalEv"); if(!simproc()) return rf(s); return entropy(); }
}
