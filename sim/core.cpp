// Fibers, seeded scheduler, choice streams, process images, verdicts, zygote server.
#include "core.h"
#include <iostream>
#include <streambuf>
#include <cxxabi.h>
#include <link.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/personality.h>
#include <climits>
#include <algorithm>
#include <petscsys.h>
#include <malloc.h>

namespace sim {
Fiber* cur = nullptr; Proc* cproc = nullptr;
int64_t g_now = 1000000000; uint64_t g_progress = 0, g_steps = 0;
bool g_faults = false, g_threads_mode = false;
int g_insim_host = 0;
NetCfg net;
static Proc host_proc;
static std::vector<Fiber*> fibers;
static std::vector<Proc*> procs;
static ucontext_t sched_ctx;
static bool g_killed = false;
static int g_size = 1;

// ------------------------------------------------------------------ choices
struct Rng { uint64_t s; uint64_t next(){ s += 0x9e3779b97f4a7c15ULL; return mix(s ^ (s>>31)); } double u(){ return (next()>>11)*(1.0/9007199254740992.0);} };
static Rng rng[NSTREAM], tune_rng;
static bool g_replay = false;
// recorded decisions live in memory shared with the zygote, so a crashed run still yields its trace
static const size_t CAP = 4000000;
struct Shm { size_t n[NSTREAM]; uint64_t hash, ileave, steps, switches; char label[1024]; char where[128]; int d[NSTREAM][CAP]; };
static Shm* shm=nullptr;
static std::vector<int> script[NSTREAM];
static size_t pos[NSTREAM];
static std::map<std::string,double> notes, faults;
static std::vector<std::string> knowns;
#define g_hash (shm->hash)
#define g_ileave (shm->ileave)
static uint64_t n_switch = 0, n_contended = 0;
static int64_t sim_time_total = 0;
static int result_fd = -1;
static std::string g_prop, g_workload; static uint64_t g_seed;

static void record(Stream s, int v){ pos[s]++; if(shm->n[s]>=CAP) fail("livelock","more than %zu %s decisions in one run",CAP,s==SCHED?"scheduling":"simulator"); shm->d[s][shm->n[s]++]=v; }
static int draw(Stream s, int n, double p_nz){
  if (n <= 1) return 0;
  int v;
  if (g_replay) v = pos[s] < script[s].size() ? script[s][pos[s]] % n : 0;
  else if (p_nz >= 1) v = (int)(rng[s].next() % (uint64_t)n);
  else v = rng[s].u() < p_nz ? 1 + (int)(rng[s].next() % (uint64_t)(n-1)) : 0;
  record(s,v);
  return v;
}
int choose(Stream s, int n, double p, const char*){ InSim g; return draw(s, n, p); }
int gen(int n, const char*){ InSim g; return draw(GEN, n, 1); }
int gen_rare(int n, double p, const char*){ InSim g; return draw(GEN, n, p); }
void ev(uint64_t x){ g_hash = (g_hash ^ mix(x)) * 1099511628211ull; }
void hash_state(uint64_t v){ ev(v); }
void note(const char* k, double a){ InSim g; notes[k] += a; }
void count_fault(const char* k, double n){ InSim g; faults[k] += n; }
void label(const std::string& s){ InSim g; ev(hstr(s.c_str())); snprintf(shm->label,sizeof shm->label,"%s",s.c_str()); }
static std::string streams_json(){ std::string o=",\"streams\":["; for(int s=0;s<NSTREAM;s++){ o += s?",[":"["; size_t n=shm->n[s]; while(n&&shm->d[s][n-1]==0) n--; for(size_t i=0;i<n;i++){ if(i) o+=','; o+=std::to_string(shm->d[s][i]); } o+="]"; } return o+"]"; }
void scratch_cleanup();

// ------------------------------------------------------------------ verdicts
static std::string esc(const std::string& s){ std::string o; for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else if(c>=127) o+='?'; else o+=c;} return o; }
static void emit(const char* verdict, const char* kind, const std::string& msg){
  std::string o = "{\"verdict\":\"" + std::string(verdict) + "\",\"kind\":\"" + esc(kind) + "\",\"msg\":\"" + esc(msg) + "\",\"seed\":" + std::to_string(g_seed);
  char b[256];
  snprintf(b,256,",\"hash\":\"%016llx\",\"ileave\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"contended\":%llu,\"sim_ns\":%lld",(unsigned long long)g_hash,(unsigned long long)g_ileave,(unsigned long long)g_steps,(unsigned long long)n_switch,(unsigned long long)n_contended,(long long)sim_time_total); o+=b;
  o += ",\"label\":\"" + esc(shm->label) + "\",\"notes\":{"; bool f=true;
  for(auto&[k,v]:notes){ snprintf(b,256,"%s\"%s\":%g",f?"":",",k.c_str(),v); o+=b; f=false; }
  o += "},\"faults\":{"; f=true;
  for(auto&[k,v]:faults){ snprintf(b,256,"%s\"%s\":%g",f?"":",",k.c_str(),v); o+=b; f=false; }
  o += "},\"known\":["; f=true;
  for(auto&k:knowns){ o += (f?"\"":",\"") + esc(k) + "\""; f=false; }
  o += "]";
  if (strcmp(verdict,"ok")!=0 || getenv("SIM_TRACE")) o += streams_json();
  o += "}\n";
  scratch_cleanup();
  size_t off=0; while(off<o.size()){ ssize_t r=::syscall(1/*write*/,result_fd,o.data()+off,o.size()-off); if(r<=0) break; off+=r; }
}
void fail(const char* kind, const char* fmt, ...){
  InSim g; char buf[4096]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  std::string m = buf; std::string w = where_all(); if(!w.empty()) m += " | " + w;
  emit("violation", kind, m); _exit(0);
}
void infra(const char* fmt, ...){
  InSim g; char buf[2048]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  emit("infra", "infra", buf); _exit(0);
}
void known(const char* id, const char* fmt, ...){
  InSim g; char buf[1024]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  knowns.push_back(std::string(id)+" "+buf);
}
std::string where_all(){
  std::string w; if(fibers.empty()) return w;
  w = "ranks:"; for(auto f: fibers){ w += " [" + std::to_string(f->proc->rank) + (f->done?" done":std::string(" at ")+f->what) + "]"; if(w.size()>600) break; }
  return w;
}

// ------------------------------------------------------------------ process images
struct Region { char* a; size_t n; };
static std::vector<Region> regions; static std::vector<std::vector<char>> pristine;
static int phdr_cb(struct dl_phdr_info* i, size_t, void*){
  std::string n = i->dlpi_name ? i->dlpi_name : "";
  if (n.find("libef.so")==std::string::npos && n.find("/libp4est")==std::string::npos && n.find("/libsc-")==std::string::npos) return 0;
  uintptr_t ra=0, rb=0; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO){ ra=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; rb=ra+i->dlpi_phdr[k].p_memsz; rb&=~(uintptr_t)4095; }
  for(int k=0;k<i->dlpi_phnum;k++){ auto&p=i->dlpi_phdr[k]; if(p.p_type!=PT_LOAD||!(p.p_flags&PF_W)) continue; uintptr_t a=i->dlpi_addr+p.p_vaddr,b=a+p.p_memsz; if(ra&&a<=ra&&ra<b&&rb>a) a=rb; if(a<b) regions.push_back({(char*)a,b-a}); }
  return 0;
}
static void images_init(){ dl_iterate_phdr(phdr_cb,nullptr); if(regions.size()<3) { fprintf(stderr,"simrun: expected 3 image regions, got %zu\n",regions.size()); exit(2);} for(auto&r:regions) pristine.emplace_back(r.a,r.a+r.n); }
static void image_save(Proc*p){ if(p->image.empty()) p->image=pristine; for(size_t k=0;k<regions.size();k++) memcpy(p->image[k].data(),regions[k].a,regions[k].n); }
static void image_load(Proc*p){ for(size_t k=0;k<regions.size();k++) memcpy(regions[k].a,p->image[k].data(),regions[k].n); }
char* image_xlat(Proc*p,char*a){ if(p==cproc) return a; for(size_t k=0;k<regions.size();k++) if(a>=regions[k].a&&a<regions[k].a+regions[k].n) return p->image[k].data()+(a-regions[k].a); return a; }
static bool g_capture=false; static FILE* host_out=nullptr;
void out_raw(Proc*p,const void*b,size_t n){ if(p->outf) fwrite(b,1,n,(FILE*)p->outf); }
bool capturing(){ return g_capture&&cproc&&cproc->outf; }
static void out_select(Proc*p){ if(!g_capture) return; FILE*f=host_out; if(!p->host){ if(!p->outf) p->outf=open_memstream(&p->outp,&p->outn); f=(FILE*)p->outf; } stdout=f; PETSC_STDOUT=f; }
struct CoutBuf : std::streambuf { int overflow(int c) override { if(c!=EOF) fputc(c,stdout); return c; } std::streamsize xsputn(const char*s,std::streamsize n) override { return fwrite(s,1,n,stdout); } int sync() override { return fflush(stdout); } };
void capture_output(bool on){ static CoutBuf cb; static std::streambuf* was=nullptr; if(on==g_capture) return; if(on){ host_out=stdout; was=std::cout.rdbuf(&cb); g_capture=true; } else { std::cout.rdbuf(was); stdout=host_out; PETSC_STDOUT=host_out; g_capture=false; } }
std::string output(){ InSim g; if(!cproc->outf) return ""; fflush((FILE*)cproc->outf); return std::string(cproc->outp,cproc->outn); }
Life life(){ Proc*p=cproc; return {p->mpi_init,p->mpi_final,p->petsc_on,p->petsc_ended,p->mpi_inits,p->mpi_ends,p->petsc_inits,p->petsc_ends}; }
static void to_proc(Proc*p){ if(p==cproc) return; image_save(cproc); cproc=p; image_load(p); out_select(p); }

// ------------------------------------------------------------------ fibers
static const size_t STACK = 2u<<20;
static int g_fill = 0; void set_fill(int p){ g_fill = p; }
int fill_pattern(){ return g_fill; }
static uint64_t g_order=0; void set_heap_order(int k){ g_order=k?mix((uint64_t)k*977):0; }
bool heap_decoy(){ if(!g_order) return false; g_order^=g_order<<13; g_order^=g_order>>7; g_order^=g_order<<17; return (g_order&3)==0; }
static void tramp(unsigned lo, unsigned hi){
  Fiber* f = (Fiber*)(((uintptr_t)hi<<32)|lo);
  f->insim = 0;
  try { f->body(); }
  catch (std::exception& e) { InSim g; f->proc->out.threw = true; f->proc->out.what = e.what(); }
  catch (...) { InSim g; f->proc->out.threw = true; f->proc->out.what = "(not a std::exception)"; }
  f->insim = 1; f->done = true; f->proc->fibers_live--; g_progress++;
  swapcontext(&f->ctx,&sched_ctx);
  abort();
}
static Fiber* new_fiber(Proc* p, std::function<void()> body){
  Fiber* f = new Fiber; f->id = (int)fibers.size(); f->proc = p; f->body = std::move(body); f->insim = 0;
  f->stack = (char*)mmap(nullptr,STACK+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  mprotect(f->stack,4096,PROT_NONE);
  if (g_fill) memset(f->stack+4096+STACK-(128<<10),g_fill,128<<10);
  getcontext(&f->ctx); f->ctx.uc_stack.ss_sp=f->stack+4096; f->ctx.uc_stack.ss_size=STACK; f->ctx.uc_link=nullptr;
  makecontext(&f->ctx,(void(*)())tramp,2,(unsigned)(uintptr_t)f,(unsigned)((uintptr_t)f>>32));
  fibers.push_back(f); p->fibers_live++;
  return f;
}
static void to_sched(){ swapcontext(&cur->ctx,&sched_ctx); }
static void maybe_stall(){
  if(!g_faults) return;
  int v = draw(NET,5,net.p_stall); if(!v) return;
  static const int64_t d[5]={0,20000,500000,20000000,3000000000LL};
  cur->wake = g_now + d[v]; faults["stalled rank"]++;
}
void block(const char* what, std::function<bool()> pred){
  if(!cur){ if(!pred()) infra("blocking %s outside a job",what); return; }
  InSim g; cur->what=what; cur->pred=std::move(pred); maybe_stall(); to_sched(); cur->pred=nullptr; cur->what="run";
}
void yield(const char* what){
  if(!cur||cur->quiet) return;
  InSim g; cur->what=what; cur->proc->nops++; maybe_stall(); to_sched(); cur->what="run";
}
void yield_point(const char* what){ if(cur && !cur->quiet) yield(what); }
void poll_failed(const char* what){ // an unsuccessful test or probe: give way, remember that nothing came of it
  if(!cur) return; InSim g;
  if(cur->polled_at!=g_progress){ cur->polled_at=g_progress; cur->polls=0; }
  cur->polls++; cur->poll_time=g_now; cur->what=what; to_sched(); cur->what="run";
}
// thread-local storage of libef.so and std::call_once's, one copy per fiber
static size_t tls_mod=0, tls_size=0; static std::vector<char> tls_init; struct TlsIndex { unsigned long mod, off; }; extern "C" void* __tls_get_addr(TlsIndex*);
static int tls_cb(struct dl_phdr_info* i, size_t, void*){ std::string n=i->dlpi_name?i->dlpi_name:""; if(n.find("libef.so")==std::string::npos) return 0;
  for(int k=0;k<i->dlpi_phnum;k++){ auto&p=i->dlpi_phdr[k]; if(p.p_type!=PT_TLS||!p.p_memsz) continue; tls_mod=i->dlpi_tls_modid; tls_size=p.p_memsz; tls_init.assign(tls_size,0); memcpy(tls_init.data(),(char*)(i->dlpi_addr+p.p_vaddr),p.p_filesz); } return 0; }
static char* tls_addr(){ TlsIndex t{tls_mod,0}; return (char*)__tls_get_addr(&t); }
static void* once_slot[2]; // thread-locals of libstdc++ on the only real thread
static void tls_setup(){ dl_iterate_phdr(tls_cb,nullptr); once_slot[0]=dlsym(RTLD_DEFAULT,"_ZSt15__once_callable"); once_slot[1]=dlsym(RTLD_DEFAULT,"_ZSt11__once_call"); }
static void tls_in(Fiber*f){ if(tls_size){ if(f->tls.empty()) f->tls=tls_init; memcpy(tls_addr(),f->tls.data(),tls_size); } for(int k=0;k<2;k++) if(once_slot[k]) *(void**)once_slot[k]=f->once[k]; }
static void tls_out(Fiber*f){ if(tls_size) memcpy(f->tls.data(),tls_addr(),tls_size); for(int k=0;k<2;k++) if(once_slot[k]) f->once[k]=*(void**)once_slot[k]; }
static void switch_to(Fiber* f){
  to_proc(f->proc); tls_in(f);
  auto* eh = (void**)abi::__cxa_get_globals();
  eh[0]=f->eh[0]; *(unsigned*)&eh[1]=*(unsigned*)&f->eh[1];
  snprintf(shm->where,sizeof shm->where,"rank %d after %s",f->proc->rank,f->what);
  cur=f; n_switch++; f->last_run=g_steps;
  swapcontext(&sched_ctx,&f->ctx);
  tls_out(f);
  f->eh[0]=eh[0]; *(unsigned*)&f->eh[1]=*(unsigned*)&eh[1]; eh[0]=nullptr; *(unsigned*)&eh[1]=0;
  cur=nullptr;
}
// search-mode preference; the decision that is recorded is the index into the ordered candidate list
static std::vector<double> prio; static uint64_t next_change=0;
static int prefer(const std::vector<Fiber*>& c, Fiber* last){
  auto& r = tune_rng;
  switch(net.strategy){
    case 0: return 0;                                         // run until blocked
    case 1: return (int)(r.next()%c.size());                  // uniform
    case 2: return r.u()<0.1 ? (int)(r.next()%c.size()) : 0;  // sticky
    case 3: {                                                 // priorities with random change points
      if(g_steps>=next_change){ next_change=g_steps+1+r.next()%400; prio.assign(64,0); for(auto&x:prio) x=r.u(); }
      int b=0; for(size_t i=1;i<c.size();i++) if(prio[c[i]->id&63]>prio[c[b]->id&63]) b=(int)i; return b; }
    case 4: { int b=-1; for(size_t i=0;i<c.size();i++) if(c[i]->proc->rank!=net.slow && (b<0||r.u()<0.5)) b=(int)i; return b<0?0:b; } // one rank starved
    case 5: { int b=0; for(size_t i=1;i<c.size();i++) if(c[i]->last_run<c[b]->last_run) b=(int)i; return b; } // round robin
    case 6: { int b=0; for(size_t i=1;i<c.size();i++) if(c[i]->proc->rank>c[b]->proc->rank) b=(int)i; return b; } // highest rank first
  }
  return 0;
}
static uint64_t g_step_limit = 3000000;
static void run_scheduler(){
  Fiber* last=nullptr;
  std::vector<Fiber*> c;
  while(true){
    if(g_killed) return;
    int livef=0; c.clear(); size_t start = last ? last->id : 0; size_t n=fibers.size(); int64_t nextwake=INT64_MAX;
    for(size_t k=0;k<n;k++){ Fiber*f=fibers[(start+k)%n]; if(f->done) continue; livef++;
      if(f->wake>g_now){ nextwake=std::min(nextwake,f->wake); continue; }
      if(f->pred){ InSim g; if(!f->pred()) continue; }
      if(f->polls>=20 && f->polled_at==g_progress && !mpi_arrived_since(f->poll_time)) continue;   // spinning without anything having changed
      c.push_back(f); }
    if(!livef) return;
    if(c.empty()){
      int64_t t=std::min(nextwake,mpi_next_event());
      if(t==INT64_MAX){
        bool spin=false; for(auto f:fibers) if(!f->done&&f->polls>=20&&f->polled_at==g_progress) spin=true;
        InSim g; fail(spin?"livelock":"deadlock","no process can make progress: %s",mpi_blocked_report().c_str());
      }
      sim_time_total += t-g_now; g_now=t; g_progress++; continue;
    }
    int k=0;
    if(c.size()>1){
      if(g_faults){
        InSim g; n_contended++;
        if(g_replay) k=draw(SCHED,(int)c.size(),1);
        else { k=prefer(c,last); if(k<0||k>=(int)c.size()) k=0; record(SCHED,k); }
        g_ileave=(g_ileave^mix(((uint64_t)c[k]->id<<32)^hstr(c[k]->what)))*1099511628211ull;
      } else { // fair and deterministic
        for(size_t i=1;i<c.size();i++) if(c[i]->last_run<c[k]->last_run) k=(int)i;
      }
    }
    Fiber*f=c[k]; last=f; g_steps++; g_now+=1000; sim_time_total+=1000;
    if(g_steps>g_step_limit) fail("livelock","more than %llu scheduling steps in one run",(unsigned long long)g_step_limit);
    shm->steps=g_steps; ev(((uint64_t)f->id<<40)^hstr(f->what));
    switch_to(f);
  }
}
int cur_rank(){ return cur?cur->proc->rank:0; }
int job_size(){ return g_size; }
void kill_job(){ g_killed=true; g_progress++; if(cur){ cur->insim++; to_sched(); } abort(); }
static uint64_t sync_epoch=0; static int sync_count=0;
void sync_all(const char* what){
  InSim g; uint64_t e=sync_epoch; sync_count++;
  int livep=0; for(auto p:procs) if(p->fibers_live) livep++;
  if(sync_count>=livep){ sync_count=0; sync_epoch++; g_progress++; yield(what); }
  else block(what,[e]{ return sync_epoch!=e; });
}
static int64_t clampns(int64_t n){ return n<0?0:n; }
int64_t now_ns(){ return g_now; }
static bool g_ticks=true; void clock_ticks(bool on){ g_ticks=on; }
void clock_tick(){ if(!g_ticks||!cur||!cproc||cproc->host||in_sim()||net.p_tick<=0) return; InSim g; int v=draw(OS,5,net.p_tick); if(!v) return; static const int64_t d[5]={0,1000,1000000,1000000000,100000000000}; g_now+=d[v]; sim_time_total+=d[v]; count_fault("time passes between two looks at the clock",1); }
void advance_ns(int64_t n){ g_now+=clampns(n); sim_time_total+=clampns(n); if(cproc) cproc->cpu_ns+=clampns(n); }
void sleep_ns(int64_t n){ if(!cur){ advance_ns(n); return; } InSim g; cur->wake=g_now+clampns(n); cur->what="sleep"; to_sched(); cur->what="run"; }
Quiet::Quiet(){ if(cur){ cur->quiet++; cur->insim++; } else g_insim_host++; }
Quiet::~Quiet(){ if(cur){ cur->quiet--; cur->insim--; } else g_insim_host--; }
Live live(){ return {cproc->bytes,cproc->blocks,cproc->comms,cproc->reqs,cproc->groups,cproc->types}; }
void alloc_fail_in(long n){ cproc->fail_at = n>0 ? cproc->allocs+n : 0; cproc->fail_fired=false; }
long alloc_count(){ return cproc->allocs; }
bool alloc_fired(){ return cproc->fail_fired; }

std::vector<Outcome> launch(int n, const std::function<void(int)>& fn, const JobOpts& o){
  InSim g0;
  if(cur) infra("launch inside a job");
  g_size=n; g_killed=false; sync_count=0; bool faults_before=g_faults; g_faults=o.faults && n>0;
  fibers.clear(); procs.clear(); prio.clear(); next_change=0;
  int clocks=g_faults?draw(OS,4,0.5):0; if(clocks) count_fault("clocks of the ranks disagree",1);
  for(int r=0;r<n;r++){
    static uint64_t serial=0; Proc*p=new Proc; p->serial=++serial;
    if(clocks){ uint64_t h=mix(p->serial*4+(uint64_t)clocks); static const int64_t up[4]={0,1000000000LL,86400000000000LL,31000000000000000LL}; p->mono_off=(int64_t)(h%(uint64_t)up[clocks]); p->wall_skew=(int64_t)(mix(h)%(uint64_t)(2*up[clocks]))-up[clocks]; }
    p->rank=r; p->size=n; p->image=pristine;
    p->args.push_back("prog"); for(auto&a:o.args) p->args.push_back(a);
    for(auto&a:p->args) p->argv.push_back(a.data()); p->argv.push_back(nullptr); p->argc=(int)p->args.size();
    procs.push_back(p);
    new_fiber(p,[fn,r]{ fn(r); cur->proc->out.finished=true; });
  }
  mpi_job_begin(procs);
  run_scheduler();
  Proc* hp=&host_proc; to_proc(hp);
  std::vector<Outcome> res;
  for(auto p:procs){ if(g_killed) p->out.killed=true; res.push_back(p->out); }
  if(!o.allow_throw && !g_killed) for(auto p:procs) if(p->out.threw) fail("exception","rank %d of %d ended with an exception: %s",p->rank,n,p->out.what.c_str());
  mpi_job_end(procs,o.check_leftover && !g_killed);
  for(auto f:fibers) munmap(f->stack,STACK+4096);
  fibers.clear(); procs.clear(); g_faults=faults_before; g_size=1; g_threads_mode=false;
  return res;
}
void run_threads(int n, const std::function<void(int)>& fn){
  InSim g; auto left=std::make_shared<int>(n); Proc*p=cur->proc;
  g_threads_mode=true;
  for(int t=0;t<n;t++) new_fiber(p,[fn,t,left]{ fn(t); (*left)--; g_progress++; })->tid=t+1;
  block("join threads",[left]{ return *left==0; });
  g_threads_mode=false;
}
// argv handed to PetscGetArgs / main
char** proc_argv(int& argc){ argc=cproc->argc; return cproc->argv.data(); }
} // namespace sim
extern "C" void sim_unsupported(const char* f){ sim::infra("unsupported MPI function %s",f); }

// ------------------------------------------------------------------ PETSc: initialised once, per-process calls are bookkeeping
extern "C" {
static void petsc_meet(){ if(sim::g_size>1) MPI_Barrier(MPI_COMM_WORLD); }   // both calls are collective
PetscErrorCode PetscInitialize(int*a,char***v,const char*,const char*){
  sim::Proc*p=sim::cproc; if(p->petsc_on) return 0; if(p->mpi_final) sim::fail("mpi-usage","rank %d: PetscInitialize called after MPI_Finalize",p->rank);
  if(!p->mpi_init){ MPI_Init(a,v); p->petsc_began_mpi=true; } petsc_meet(); p->petsc_on=true; p->petsc_ended=false; p->petsc_inits++; return 0; }
PetscErrorCode PetscFinalize(void){
  sim::Proc*p=sim::cproc; if(!p->petsc_on) sim::fail("mpi-usage","rank %d: PetscFinalize called when PETSc is not running",p->rank); if(p->mpi_final) sim::fail("mpi-usage","rank %d: PetscFinalize called after MPI_Finalize",p->rank);
  petsc_meet(); p->petsc_on=false; p->petsc_ended=true; p->petsc_ends++; if(p->petsc_began_mpi) MPI_Finalize(); return 0; }
PetscErrorCode PetscInitialized(PetscBool*f){ *f=sim::cproc->host||sim::cproc->petsc_on?PETSC_TRUE:PETSC_FALSE; return 0; }
PetscErrorCode PetscFinalized(PetscBool*f){ *f=sim::cproc->petsc_ended?PETSC_TRUE:PETSC_FALSE; return 0; }
PetscErrorCode PetscInitializeNoArguments(void){ return PetscInitialize(nullptr,nullptr,nullptr,nullptr); }
PetscErrorCode PetscGetArgs(int* argc,char*** argv){ int n; char** v=sim::proc_argv(n); *argc=n; *argv=v; return 0; }
}

// ------------------------------------------------------------------ zygote
typedef void (*workload_fn)(const char* prop);
using namespace sim;
static void setup_tuning(){
  auto&r=tune_rng; r.s=mix(g_seed*77+5);
  static const double pr[4]={0,0.3,0.7,1.0}; static const double pd[4]={0,0.02,0.2,0.6}; static const double ps[4]={0,0.001,0.01,0.05};
  net.strategy=(int)(r.next()%7); net.slow=(int)(r.next()%4);
  net.p_rndv=pr[r.next()%4]; net.p_delay=pd[r.next()%4]; net.p_stall=ps[r.next()%4]; net.p_sync=pr[r.next()%4];
  { static const double pt[4]={0,0,0.05,0.4}; net.p_tick=pt[r.next()%4]; }
  if(g_seed%13==0){ net=NetCfg{}; }                       // a share of plain runs
}
static int child_main(const char* lib_workload, void* lib){
  auto fn=(workload_fn)dlsym(lib,(std::string("workload_")+lib_workload).c_str());
  if(!fn) infra("no workload %s",lib_workload);
  os_child_init();
  { static const int pat[5]={0,0xA5,0xFF,0x3C,0x01}; g_fill=pat[choose(OS,5,0.75,"memory pattern")]; if(g_fill) count_fault("fresh and freed memory holds a pattern",1); }
  if(int k=choose(OS,4,0.5,"memory order")){ set_heap_order(k); count_fault("addresses of fresh memory in no order",1); }
  fn(g_prop.c_str());
  InSim g; emit("ok","",""); _exit(0);
}
static std::string run_child(const std::string& workload, void* lib){
  int pfd[2]; if(pipe(pfd)) { perror("pipe"); exit(2);} int efd=memfd_create("err",0);
  fflush(stdout);
  pid_t pid=fork();
  if(pid<0){ perror("fork"); exit(2); }
  if(pid==0){
    close(pfd[0]); result_fd=pfd[1];
    const char* cpu=getenv("SIM_CPU"); rlim_t lim=cpu?atoi(cpu):100; struct rlimit rl={lim,lim+20}; setrlimit(RLIMIT_CPU,&rl); struct rlimit rc={0,0}; setrlimit(RLIMIT_CORE,&rc);
    struct rlimit ra={6ull<<30,6ull<<30}; setrlimit(RLIMIT_AS,&ra);
    int dn=open("/dev/null",O_RDWR); dup2(dn,0); if(!getenv("SIM_VERBOSE")){ dup2(dn,1); dup2(efd,2);} 
    alarm(300);
    child_main(workload.c_str(),lib);
  }
  close(pfd[1]); std::string out; char buf[65536]; ssize_t r; while((r=read(pfd[0],buf,sizeof buf))>0) out.append(buf,r); close(pfd[0]);
  int st=0; waitpid(pid,&st,0);
  std::string res;
  if(!out.empty()&&out.back()=='\n') res=out;
  else {
    std::string err; off_t sz=lseek(efd,0,SEEK_END); if(sz>0){ size_t n=std::min<off_t>(sz,1500); err.resize(n); if(pread(efd,&err[0],n,sz-n)<0) err.clear(); }
    char b[256]; const char* kind; 
    if(WIFSIGNALED(st)){ int s=WTERMSIG(st); kind = s==SIGXCPU?"timeout":s==SIGALRM||s==SIGKILL?"infra":"crash"; snprintf(b,256,"process died of signal %d (%s)",s,strsignal(s)); }
    else { kind="crash"; snprintf(b,256,"process exited with status %d in the middle of a run",WEXITSTATUS(st)); }
    char hb[96]; snprintf(hb,96,",\"hash\":\"%016llx\",\"ileave\":\"%016llx\"",(unsigned long long)shm->hash,(unsigned long long)shm->ileave); std::string hs=hb;
    res = std::string("{\"verdict\":\"")+(strcmp(kind,"infra")?"violation":"infra")+"\",\"kind\":\""+kind+"\",\"msg\":\""+esc(b+(err.empty()?std::string():" stderr: "+err))+(shm->where[0]?" | in "+std::string(shm->where):std::string())+"\",\"seed\":"+std::to_string(g_seed)+hs+",\"steps\":"+std::to_string(shm->steps)+",\"switches\":0,\"contended\":0,\"sim_ns\":0,\"label\":\""+esc(shm->label)+"\",\"notes\":{},\"faults\":{},\"known\":[]"+streams_json()+"}\n";
  }
  close(efd);
  return res;
}
extern "C" void* __libc_malloc(size_t);
int main(int argc,char**argv){
  if(!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); if(personality(ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
  shm=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(shm==MAP_FAILED){ perror("mmap"); return 2; }
  setenv("OPENBLAS_NUM_THREADS","1",1); setenv("OMP_NUM_THREADS","1",1);
  cproc=&host_proc; host_proc.host=true; host_proc.rank=0; host_proc.size=1; host_proc.args={"prog"};
  const char* libpath=nullptr; for(int i=1;i<argc;i++) if(!strncmp(argv[i],"--lib=",6)) libpath=argv[i]+6;
  if(!libpath){ fprintf(stderr,"usage: simrun --lib=libef.so < commands\n"); return 2; }
  void* lib=dlopen(libpath,RTLD_NOW|RTLD_GLOBAL); if(!lib){ fprintf(stderr,"simrun: %s\n",dlerror()); return 2; }
  images_init(); tls_setup(); host_proc.image=pristine;
  mpi_host_init();
  { // the real PETSc starts here, once, on a one-process world
    typedef PetscErrorCode (*pi)(int*,char***,const char*,const char*);
    pi real=(pi)dlsym(RTLD_NEXT,"PetscInitialize"); static const char* av[]={"prog","-no_signal_handler","-options_left","no",nullptr}; int ac=4; char** avp=(char**)av;
    if(!real||real(&ac,&avp,nullptr,nullptr)){ fprintf(stderr,"simrun: PetscInitialize failed\n"); return 2; }
  }
  mallopt(M_MMAP_THRESHOLD,1<<30); mallopt(M_TRIM_THRESHOLD,1<<30); 
  // commands: SEED <workload> <prop> <seed>  |  TRACE <workload> <prop> <seed> s0;s1;s2;s3   (comma separated)
  char* line=nullptr; size_t cap=0; ssize_t len;
  while((len=getline(&line,&cap,stdin))>0){
    while(len&&(line[len-1]=='\n'||line[len-1]=='\r')) line[--len]=0;
    char*sv; char*cmd=strtok_r(line," ",&sv); if(!cmd) continue;
    if(!strcmp(cmd,"QUIT")) break;
    char*w=strtok_r(nullptr," ",&sv),*p=strtok_r(nullptr," ",&sv),*s=strtok_r(nullptr," ",&sv),*t=strtok_r(nullptr," ",&sv);
    if(!s){ puts("{\"verdict\":\"infra\",\"kind\":\"infra\",\"msg\":\"bad command\"}"); fflush(stdout); continue; }
    g_workload=w; g_prop=p; g_seed=strtoull(s,nullptr,10);
    for(int k=0;k<NSTREAM;k++){ shm->n[k]=0; script[k].clear(); pos[k]=0; rng[k].s=mix(g_seed*1000003ull+k*7919+17)^mix(hstr(p)); }
    shm->hash=shm->ileave=1469598103934665603ull; shm->steps=0; shm->label[0]=0; shm->where[0]=0;
    g_replay=!strcmp(cmd,"TRACE");
    if(g_replay&&t){ int k=0; for(char*c=t;*c&&k<NSTREAM;){ if(*c==';'){k++;c++;continue;} if(*c==','){c++;continue;} char*e; long v=strtol(c,&e,10); if(e==c) break; script[k].push_back((int)v); c=e; } }
    setup_tuning();
    std::string r=run_child(w,lib);
    fputs(r.c_str(),stdout); fflush(stdout);
  }
  fflush(stdout); _exit(0);
}
