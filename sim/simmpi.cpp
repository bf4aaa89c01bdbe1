// MPI for simulated ranks: the OpenMPI C ABI implemented on fibers, with seeded legal nondeterminism.
#define OMPI_SKIP_MPICXX 1
#define OMPI_OMIT_MPI1_COMPAT_DECLS 0
#include "core.h"
#include <climits>
#include <algorithm>
#include <set>
#include <unordered_set>

namespace sim {
// ------------------------------------------------------------------ datatypes
struct Seg { ptrdiff_t off; size_t len; };
struct TypeH {
  size_t size = 0; ptrdiff_t lb = 0, extent = 0; int cls = 0; // cls: element class, 0 = raw bytes / mixed
  size_t elem = 1; std::vector<Seg> segs; bool predefined = false, freed = false, contig = true;
};
static std::unordered_map<const void*, TypeH*> predef;
static void* g_typeset_dummy = nullptr;
static std::set<const void*> live_types;
enum { C_RAW = 0, C_INT = 1, C_UINT = 2, C_FLT = 3, C_CHAR = 4, C_BOOL = 5, C_PAIR = 6, C_CPLX = 7, C_WCHAR = 8 };
static void addt(MPI_Datatype d, size_t n, int cls){ auto* t=new TypeH; t->size=n; t->extent=(ptrdiff_t)n; t->cls=cls; t->elem=n; t->segs={{0,n}}; t->predefined=true; predef[(void*)d]=t; }
static void types_init(){
  addt(MPI_CHAR,1,C_CHAR); addt(MPI_SIGNED_CHAR,1,C_INT); addt(MPI_UNSIGNED_CHAR,1,C_UINT); addt(MPI_BYTE,1,C_RAW); addt(MPI_PACKED,1,C_RAW);
  addt(MPI_SHORT,2,C_INT); addt(MPI_UNSIGNED_SHORT,2,C_UINT); addt(MPI_INT,4,C_INT); addt(MPI_UNSIGNED,4,C_UINT); addt(MPI_LONG,8,C_INT); addt(MPI_UNSIGNED_LONG,8,C_UINT);
  addt(MPI_LONG_LONG_INT,8,C_INT); addt(MPI_UNSIGNED_LONG_LONG,8,C_UINT); addt(MPI_FLOAT,4,C_FLT); addt(MPI_DOUBLE,8,C_FLT); addt(MPI_LONG_DOUBLE,16,C_FLT);
  addt(MPI_CXX_BOOL,1,C_BOOL); addt(MPI_C_BOOL,1,C_BOOL); addt(MPI_WCHAR,4,C_WCHAR); addt(MPI_INT8_T,1,C_INT); addt(MPI_UINT8_T,1,C_UINT); addt(MPI_INT16_T,2,C_INT); addt(MPI_UINT16_T,2,C_UINT);
  addt(MPI_INT32_T,4,C_INT); addt(MPI_UINT32_T,4,C_UINT); addt(MPI_INT64_T,8,C_INT); addt(MPI_UINT64_T,8,C_UINT); addt(MPI_AINT,8,C_INT); addt(MPI_OFFSET,8,C_INT); addt(MPI_COUNT,8,C_INT);
  addt(MPI_2INT,8,C_PAIR); addt(MPI_DOUBLE_INT,12,C_PAIR); predef[(void*)MPI_DOUBLE_INT]->extent=16; addt(MPI_C_DOUBLE_COMPLEX,16,C_CPLX); addt(MPI_C_FLOAT_COMPLEX,8,C_CPLX);
  addt(MPI_INTEGER,4,C_INT); addt(MPI_DOUBLE_PRECISION,8,C_FLT); addt(MPI_2DOUBLE_PRECISION,16,C_PAIR); addt(MPI_DOUBLE_COMPLEX,16,C_CPLX);
}
static const char* opname(){ return cur ? cur->what : "?"; }
static void usage(const char* fn, const char* fmt, ...) __attribute__((format(printf,2,3), noreturn));
static void usage(const char* fn, const char* fmt, ...){
  char b[600]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  fail("mpi-usage","rank %d: %s: %s",cproc->rank,fn,b);
}
static TypeH* T(const char* fn, MPI_Datatype d){
  if(d==MPI_DATATYPE_NULL) usage(fn,"null datatype");
  auto it=predef.find((void*)d); if(it!=predef.end()) return it->second;
  if(live_types.count((void*)d)) return (TypeH*)(void*)d;
  usage(fn,"unknown or freed datatype");
}
static bool flat(TypeH*t){ return t->segs.size()==1&&t->segs[0].off==0&&t->segs[0].len==t->size&&t->extent==(ptrdiff_t)t->size; }
static std::string pack(Proc* p, const void* buf, int count, TypeH* t);

// ------------------------------------------------------------------ images: buffers in globals of another process
char* image_xlat(Proc* p, char* a);

static std::string pack(Proc* p, const void* buf, int count, TypeH* t){
  std::string s; if(count<=0||t->size==0) return s;
  s.resize(t->size*(size_t)count); char* o=&s[0]; const char* b=(const char*)buf;
  if(flat(t)) { memcpy(o,image_xlat(p,(char*)b),s.size()); return s; }
  for(int i=0;i<count;i++) for(auto&g:t->segs){ memcpy(o,image_xlat(p,(char*)b+i*t->extent+g.off),g.len); o+=g.len; }
  return s;
}
static void unpack(Proc* p, void* buf, TypeH* t, const char* d, size_t n){
  if(!n) return; char* b=(char*)buf;
  if(flat(t)){ memcpy(image_xlat(p,b),d,n); return; }
  for(int i=0;n;i++) for(auto&g:t->segs){ size_t k=std::min(n,g.len); memcpy(image_xlat(p,b+i*t->extent+g.off),d,k); d+=k; n-=k; if(!n) break; }
}
static int clsof(TypeH*t){ return t->cls; }

// ------------------------------------------------------------------ groups, comms
struct GroupH { std::vector<int> g; bool predefined=false, freed=false; };
static std::set<const void*> live_groups;
static GroupH empty_group;
struct Msg { int src, dst, tag; size_t bytes; int cls; size_t elem; std::string data; bool rndv; const void* sbuf; int scount; TypeH* stype; Proc* sproc; Req* sreq; int64_t avail; uint64_t id; };
struct Req {
  enum Kind { SEND, RECV, COLL } kind = SEND; bool done=false, persistent=false, active=true, orphan=false, cancelled=false;
  Proc* proc=nullptr; CommH* comm=nullptr; Core* core=nullptr;
  void* buf=nullptr; int count=0; TypeH* type=nullptr; int peer=0, tag=0; int myrank=0; bool sync=false, buffered=false;
  int st_src=MPI_ANY_SOURCE, st_tag=MPI_ANY_TAG; size_t st_bytes=0; int st_err=MPI_SUCCESS;
  std::function<bool()> ready; std::function<void()> finish; // COLL
  const char* what="";
};
struct Core {
  int id; std::vector<int> group; int n;                  // group: world ranks
  std::vector<std::deque<Msg*>> q; std::vector<std::deque<Req*>> posted;
  std::vector<std::vector<int64_t>> last;                 // per src,dst availability
  std::vector<uint64_t> seq; std::map<uint64_t,std::shared_ptr<Coll>> colls;
  std::vector<int> freed; int nfreed=0; std::string name0;
  std::map<std::string,int> cgcount;                      // create_group instances
};
struct CommH { Core* core; int rank; Proc* proc; std::string name; std::map<int,void*> attrs; MPI_Errhandler eh; bool freed=false; };
struct Coll {
  const char* kind; int root; const void* op; long sig; uint64_t seq;
  std::vector<char> here; int arrived=0; bool sync=false; int left=0;
  std::vector<std::string> data; std::vector<std::vector<int>> aux;
  std::vector<Core*> newcore; std::vector<int> cls; bool resolved=false; std::string result; std::vector<std::string> results;
  std::function<std::string()> late;
};
static std::vector<Core*> cores; static int next_core=0; static uint64_t next_msg=0;
static std::set<const void*> live_reqs; static std::unordered_set<const void*> comms_all;
struct Keyval { MPI_Comm_copy_attr_function* c; MPI_Comm_delete_attr_function* d; void* x; bool freed=false; };
static std::vector<Keyval> keyvals;
struct OpH { MPI_User_function* f; bool commute; };
static std::set<const void*> live_ops;
static std::map<const void*,CommH*> taken; // messages taken by a matched probe
static std::map<std::string,std::shared_ptr<Coll>> cgroups;

static Core* new_core(const std::vector<int>& g){
  Core*c=new Core; c->id=next_core++; c->group=g; c->n=(int)g.size(); c->q.resize(c->n); c->posted.resize(c->n); c->last.assign(c->n,std::vector<int64_t>(c->n,0)); c->seq.assign(c->n,0); c->freed.assign(c->n,0); cores.push_back(c); return c;
}
static CommH* new_comm(Core*c, Proc*p, const std::string& name=""){
  int r=-1; for(int i=0;i<c->n;i++) if(c->group[i]==p->rank) r=i;
  auto*h=new CommH; h->core=c; h->rank=r; h->proc=p; h->name=name; h->eh=MPI_ERRORS_ARE_FATAL; comms_all.insert(h); return h;
}
static CommH* C(const char* fn, MPI_Comm m){
  if(!cproc->mpi_init) usage(fn,"called before MPI_Init");
  if(cproc->mpi_final) usage(fn,"called after MPI_Finalize");
  if(m==MPI_COMM_WORLD) return cproc->world;
  if(m==MPI_COMM_SELF) return cproc->self;
  if(m==MPI_COMM_NULL) usage(fn,"null communicator");
  CommH*h=(CommH*)(void*)m;
  if(!comms_all.count(h)) usage(fn,"not a communicator: %p",(void*)m);
  if(h->freed) usage(fn,"communicator was already freed");
  if(h->proc!=cproc){ if(cproc->host||h->proc->host) infra("%s: communicator of another process (host)",fn); usage(fn,"communicator belongs to another process"); }
  return h;
}
static MPI_Comm H(CommH*h){ return (MPI_Comm)(void*)h; }
static void set_status(MPI_Status* st, int src, int tag, size_t bytes, int err=MPI_SUCCESS){
  if(st==MPI_STATUS_IGNORE||!st) return; st->MPI_SOURCE=src; st->MPI_TAG=tag; st->_ucount=bytes; st->_cancelled=0; (void)err;
}
static const int64_t kDelay[6]={0,2000,50000,1000000,30000000,2000000000LL};

// ------------------------------------------------------------------ point to point
static bool matches(Req*r, Msg*m){ return (r->peer==MPI_ANY_SOURCE||r->peer==m->src)&&(r->tag==MPI_ANY_TAG||r->tag==m->tag); }
static void complete(Req*r, Msg*m){
  // runs in whichever process noticed the match
  size_t cap=r->type->size*(size_t)std::max(0,r->count);
  if(m->rndv){ m->data=pack(m->sproc,m->sbuf,m->scount,m->stype); }
  if(m->data.size()>cap) fail("mpi-usage","message truncated: rank %d of %d posted %zu bytes, rank %d sent %zu (tag %d)",r->myrank,r->core->n,cap,m->src,m->data.size(),m->tag);
  if(m->cls!=C_RAW&&clsof(r->type)!=C_RAW&&m->bytes&&(m->cls!=clsof(r->type)||m->elem!=r->type->elem)) fail("mpi-usage","message type mismatch: rank %d receives class %d/%zu, rank %d sent class %d/%zu (tag %d)",r->myrank,clsof(r->type),r->type->elem,m->src,m->cls,m->elem,m->tag);
  unpack(r->proc,r->buf,r->type,m->data.data(),m->data.size());
  r->st_src=m->src; r->st_tag=m->tag; r->st_bytes=m->data.size(); r->done=true;
  if(m->sreq) m->sreq->done=true;
  ev(((uint64_t)m->id<<20)^m->bytes^((uint64_t)m->tag<<44)); g_progress++;
  delete m;
}
static void progress(Core*c, int dst){
  auto& q=c->q[dst]; auto& P=c->posted[dst];
  bool again=true;
  while(again){ again=false;
    for(size_t i=0;i<P.size();i++){
      Req*r=P[i]; int seen[64]; int ns=0; std::vector<size_t> cand;
      for(size_t k=0;k<q.size();k++){ Msg*m=q[k]; if(!matches(r,m)) continue; bool dup=false; for(int s=0;s<ns;s++) if(seen[s]==m->src) dup=true; if(dup) continue; if(ns<64) seen[ns++]=m->src; if(m->avail<=g_now) cand.push_back(k); if(r->peer!=MPI_ANY_SOURCE) break; }
      if(cand.empty()) continue;
      size_t k=cand[0]; if(cand.size()>1){ int v=g_faults?choose(NET,(int)cand.size(),0.7,"wildcard"):0; if(v) count_fault("wildcard receive matched out of arrival order"); k=cand[v]; }
      Msg*m=q[k]; q.erase(q.begin()+k); P.erase(P.begin()+i); complete(r,m); again=true; break;
    }
  }
}
static void check_peer(const char* fn, CommH*h, int peer, bool any){ if(peer==MPI_PROC_NULL) return; if(any&&peer==MPI_ANY_SOURCE) return; if(peer<0||peer>=h->core->n) usage(fn,"rank %d is not in the communicator (size %d)",peer,h->core->n); }
static void check_tag(const char* fn,int tag,bool any){ if(any&&tag==MPI_ANY_TAG) return; if(tag<0) usage(fn,"negative tag %d",tag); }
static Req* new_req(CommH*h, Req::Kind k, const char* what){ auto*r=new Req; r->kind=k; r->comm=h; r->core=h->core; r->proc=cproc; r->myrank=h->rank; r->what=what; live_reqs.insert(r); cproc->reqs++; return r; }
static void drop_req(Req*r){ live_reqs.erase(r); r->proc->reqs--; delete r; }
static void start_send(Req*r){
  r->active=true; r->done=false;
  if(r->peer==MPI_PROC_NULL){ r->done=true; return; }
  Core*c=r->core; Msg*m=new Msg; m->src=r->myrank; m->dst=r->peer; m->tag=r->tag; m->id=next_msg++; m->cls=clsof(r->type); m->elem=r->type->elem; m->bytes=r->type->size*(size_t)std::max(0,r->count); m->sproc=r->proc; m->sreq=nullptr; m->sbuf=nullptr;
  int v=g_faults?choose(NET,6,net.p_delay,"delay"):0; if(v) count_fault("message delayed");
  m->avail=std::max(g_now+kDelay[v],c->last[m->src][m->dst]); c->last[m->src][m->dst]=m->avail;
  m->rndv=r->sync||(!r->buffered&&g_faults&&choose(NET,2,net.p_rndv,"rendezvous"));
  if(m->rndv){ if(!r->sync) count_fault("send without buffering"); m->sreq=r; m->sbuf=r->buf; m->scount=r->count; m->stype=r->type; }
  else { m->data=pack(r->proc,r->buf,r->count,r->type); r->done=true; }
  c->q[m->dst].push_back(m); g_progress++;
  progress(c,m->dst);
}
static void start_recv(Req*r){
  r->active=true; r->done=false;
  if(r->peer==MPI_PROC_NULL){ r->done=true; r->st_src=MPI_PROC_NULL; r->st_tag=MPI_ANY_TAG; r->st_bytes=0; return; }
  r->core->posted[r->myrank].push_back(r); progress(r->core,r->myrank);
}
static bool req_done(Req*r){
  if(r->done||!r->active) return true;
  if(r->kind==Req::RECV){ progress(r->core,r->myrank); return r->done; }
  if(r->kind==Req::SEND){ progress(r->core,r->peer); return r->done; }
  return r->ready();
}
// consume a completed request; sets *rq to null when it is not persistent
static void reap(MPI_Request* rq, MPI_Status* st){
  Req*r=(Req*)(void*)*rq;
  if(r->kind==Req::COLL&&r->active&&!r->done){ r->finish(); r->done=true; }
  if(r->kind==Req::RECV&&r->active) set_status(st,r->st_src,r->st_tag,r->st_bytes); else set_status(st,MPI_ANY_SOURCE,MPI_ANY_TAG,0);
  if(st&&st!=MPI_STATUS_IGNORE) st->_cancelled=r->cancelled;
  if(r->persistent){ r->active=false; return; }
  drop_req(r); *rq=MPI_REQUEST_NULL;
}
static Req* R(const char* fn, MPI_Request q){ if(!live_reqs.count((void*)q)) usage(fn,"invalid or already completed request"); Req*r=(Req*)(void*)q; if(r->proc!=cproc) usage(fn,"request of another process"); return r; }

// ------------------------------------------------------------------ operators
template<class X> static void arith(int op, X* io, const X* in, size_t n){
  for(size_t i=0;i<n;i++) switch(op){ case 0: io[i]=in[i]+io[i]; break; case 1: io[i]=in[i]*io[i]; break; case 2: io[i]=in[i]>io[i]?in[i]:io[i]; break; case 3: io[i]=in[i]<io[i]?in[i]:io[i]; break;
    case 4: io[i]=(X)(in[i]&&io[i]); break; case 5: io[i]=(X)(in[i]||io[i]); break; case 6: io[i]=(X)((!in[i])!=(!io[i])); break; }
}
template<class X> static void bitop(int op, X* io, const X* in, size_t n){ for(size_t i=0;i<n;i++) switch(op){ case 7: io[i]&=in[i]; break; case 8: io[i]|=in[i]; break; case 9: io[i]^=in[i]; break; } }
static int opcode(MPI_Op o){ if(o==MPI_SUM) return 0; if(o==MPI_PROD) return 1; if(o==MPI_MAX) return 2; if(o==MPI_MIN) return 3; if(o==MPI_LAND) return 4; if(o==MPI_LOR) return 5; if(o==MPI_LXOR) return 6; if(o==MPI_BAND) return 7; if(o==MPI_BOR) return 8; if(o==MPI_BXOR) return 9; if(o==MPI_MAXLOC) return 10; if(o==MPI_MINLOC) return 11; if(o==MPI_REPLACE) return 12; return -1; }
// io = in op io   (in comes from the lower rank)
static void reduce1(const char* fn, MPI_Op o, MPI_Datatype dt, TypeH* t, int count, std::string& io, std::string& in){
  int op=opcode(o);
  if(op<0){
    if(!live_ops.count((void*)o)) usage(fn,"invalid operation handle");
    auto*h=(OpH*)(void*)o; int len=count; MPI_Datatype d=dt;
    // user functions run as part of the process that called the collective
    std::vector<char> a(in.begin(),in.end()), b(io.begin(),io.end());
    if(!flat(t)) infra("%s: user operation on a non-contiguous type",fn);
    int& s = cur?cur->insim:g_insim_host; int keep=s; s=0; h->f(a.data(),b.data(),&len,&d); s=keep;
    io.assign(b.begin(),b.end()); return;
  }
  if(op==12){ io=in; return; }
  size_t n=io.size()/t->elem; char*x=&io[0]; const char*y=in.data();
  if(op>=10){
    struct di{double v;int i;}; struct ii{int v;int i;};
    if(t->size==8&&t->cls==C_PAIR) for(int k=0;k<count;k++){ ii*p=(ii*)x+k; const ii*q=(const ii*)y+k; bool take= op==10? q->v>p->v:q->v<p->v; if(q->v==p->v) p->i=std::min(p->i,q->i); else if(take)*p=*q; }
    else if(t->size==16&&t->cls==C_PAIR) for(int k=0;k<count;k++){ double*p=(double*)x+2*k; const double*q=(const double*)y+2*k; bool take= op==10? q[0]>p[0]:q[0]<p[0]; if(q[0]==p[0]) p[1]=std::min(p[1],q[1]); else if(take){p[0]=q[0];p[1]=q[1];} }
    else infra("%s: loc operation on unsupported type",fn);
    return;
  }
  if(t->cls==C_FLT){ if(op>=7) usage(fn,"bitwise operation on floating point"); if(t->elem==8) arith(op,(double*)x,(const double*)y,n); else if(t->elem==4) arith(op,(float*)x,(const float*)y,n); else arith(op,(long double*)x,(const long double*)y,n); return; }
  if(t->cls==C_CPLX&&op==0){ arith(op,(double*)x,(const double*)y,io.size()/8); return; }
  bool u = t->cls==C_UINT||t->cls==C_RAW||t->cls==C_BOOL;
  if(t->cls==C_PAIR||t->cls==C_CPLX||t->cls==C_WCHAR) usage(fn,"operation not defined for this datatype");
#define GO(S,U) if(op>=7) bitop(op,(U*)x,(const U*)y,n); else if(u) arith(op,(U*)x,(const U*)y,n); else arith(op,(S*)x,(const S*)y,n)
  switch(t->elem){ case 1: GO(int8_t,uint8_t); break; case 2: GO(int16_t,uint16_t); break; case 4: GO(int32_t,uint32_t); break; case 8: GO(int64_t,uint64_t); break; default: infra("%s: element size %zu",fn,t->elem); }
#undef GO
}

// ------------------------------------------------------------------ collectives
static std::shared_ptr<Coll> enter(const char* fn, CommH*h, int root, const void* op, long sig){
  yield(fn);
  Core*c=h->core; uint64_t s=c->seq[h->rank]++;
  auto& e=c->colls[s];
  if(!e){ e=std::make_shared<Coll>(); e->kind=fn; e->root=root; e->op=op; e->sig=sig; e->seq=s; e->here.assign(c->n,0); e->data.resize(c->n); e->aux.resize(c->n); e->newcore.resize(c->n,nullptr); e->cls.assign(c->n,-1); e->results.resize(c->n);
    e->sync = g_faults ? choose(NET,2,net.p_sync,"collective synchronises") : 0; if(e->sync) count_fault("collective made synchronising"); }
  if(strcmp(e->kind,fn)) fail("mpi-usage","collective mismatch on communicator '%s' (%d ranks): rank %d calls %s, another rank called %s",h->name.c_str(),c->n,h->rank,fn,e->kind);
  if(e->root!=root) fail("mpi-usage","%s: rank %d names root %d, another rank %d",fn,h->rank,root,e->root);
  if(e->op!=op) fail("mpi-usage","%s: ranks name different operations",fn);
  if(e->sig!=sig) fail("mpi-usage","%s: rank %d passes %ld bytes, another rank %ld",fn,h->rank,sig,e->sig);
  e->here[h->rank]=1; e->arrived++; g_progress++;
  return e;
}
static void leave(CommH*h, const std::shared_ptr<Coll>& e){ if(++e->left==h->core->n) h->core->colls.erase(e->seq); }
static void wait_all(const char* fn, CommH*h, const std::shared_ptr<Coll>& e){ int n=h->core->n; if(e->arrived<n) block(fn,[e,n]{ return e->arrived>=n; }); }
static void wait_root(const char* fn, CommH*h, const std::shared_ptr<Coll>& e,int root){ if(e->sync) wait_all(fn,h,e); else if(!e->here[root]) block(fn,[e,root]{ return e->here[root]!=0; }); }
static void clscheck(const char* fn, CommH*h,const std::shared_ptr<Coll>&e, TypeH*t){ int v=t->cls==C_RAW?-1:t->cls*64+(int)t->elem; for(int r=0;r<h->core->n;r++) if(e->here[r]&&r!=h->rank&&v>=0&&e->cls[r]>=0&&e->cls[r]!=v) fail("mpi-usage","%s: ranks %d and %d use different datatypes",fn,h->rank,r); e->cls[h->rank]=v; }
static std::string fold(const char* fn, Coll& e, MPI_Op op, MPI_Datatype dt, TypeH*t, int count, int upto, int from=0){
  std::string acc=e.data[from]; for(int r=from+1;r<upto;r++){ std::string in=acc; acc=e.data[r]; reduce1(fn,op,dt,t,count,acc,in); } return acc;
}
static const void* inpl(const void* s, const void* r){ return s==MPI_IN_PLACE?r:s; }

struct CommsNamed {};
void mpi_host_init(){
  types_init(); live_groups.insert(&empty_group); empty_group.predefined=true;
  keyvals.resize(64);
  Proc*p=cproc; p->mpi_init=true;
  p->world=new_comm(new_core({0}),p,"MPI_COMM_WORLD"); p->self=new_comm(new_core({0}),p,"MPI_COMM_SELF");
}
static size_t job_first_core=0;
void mpi_job_begin(std::vector<Proc*>& ps){
  std::vector<int> all; for(size_t i=0;i<ps.size();i++) all.push_back((int)i);
  for(auto p: ps) p->mpi_init=false;
  job_first_core=cores.size();
  Core*w=new_core(all);
  for(auto p: ps){ p->world=new_comm(w,p,"MPI_COMM_WORLD"); p->self=new_comm(new_core({p->rank}),p,"MPI_COMM_SELF"); }
  cgroups.clear();
}
static std::string msgdesc(Core*c, Msg*m){ char b[200]; snprintf(b,200,"message tag %d from rank %d to rank %d (world %d to %d), %zu bytes",m->tag,m->src,m->dst,c->group[m->src],c->group[m->dst],m->bytes); return b; }
void mpi_job_end(std::vector<Proc*>& ps, bool check){
  if(check) for(size_t k=job_first_core;k<cores.size();k++){ Core*c=cores[k];
    for(auto&q:c->q) for(auto m:q) fail("leftover-message","the job ended with an undelivered %s",msgdesc(c,m).c_str());
    for(auto&e:c->colls) if(e.second->arrived<c->n) fail("mpi-usage","the job ended inside a collective: %s was called by %d of %d ranks",e.second->kind,e.second->arrived,c->n);
  }
  if(check) for(auto p: ps) if(p->mpi_init && !p->mpi_final && !p->host) fail("mpi-usage","rank %d ended without calling MPI_Finalize",p->rank);
  cores.resize(std::min(cores.size(),job_first_core)); (void)ps;
}
bool mpi_arrived_since(int64_t t0){ for(size_t k=job_first_core;k<cores.size();k++) for(auto&q:cores[k]->q) for(auto m:q) if(m->avail>t0&&m->avail<=g_now) return true; return false; }
int64_t mpi_next_event(){ int64_t t=INT64_MAX; for(size_t k=job_first_core;k<cores.size();k++) for(auto&q:cores[k]->q) for(auto m:q) if(m->avail>g_now) t=std::min(t,m->avail); return t; }
std::string mpi_blocked_report(){
  std::string s; for(size_t k=job_first_core;k<cores.size();k++){ Core*c=cores[k]; for(auto&e:c->colls) if(e.second->arrived<c->n){ s+=std::string(e.second->kind)+" entered by "+std::to_string(e.second->arrived)+" of "+std::to_string(c->n)+" ranks; "; } for(auto&q:c->q) for(auto m:q) { if(s.size()<500) s+=msgdesc(c,m)+"; "; } }
  return s;
}
} // namespace sim
using namespace sim;
#define ENTER InSim _g

extern "C" {
// ------------------------------------------------------------------ environment
int MPI_Init(int*,char***){ ENTER; if(cproc->mpi_init) usage("MPI_Init","called twice"); if(cproc->mpi_final) usage("MPI_Init","called after MPI_Finalize"); yield("MPI_Init"); cproc->mpi_init=true; cproc->mpi_inits++; return MPI_SUCCESS; }
int MPI_Init_thread(int*a,char***b,int,int*p){ if(p)*p=MPI_THREAD_MULTIPLE; return MPI_Init(a,b); }
int MPI_Initialized(int*f){ *f=cproc&&cproc->mpi_init; return MPI_SUCCESS; }
int MPI_Finalized(int*f){ *f=cproc&&cproc->mpi_final; return MPI_SUCCESS; }
int MPI_Finalize(void){
  ENTER; if(!cproc->mpi_init) usage("MPI_Finalize","called before MPI_Init"); if(cproc->mpi_final) usage("MPI_Finalize","called twice");
  if(cproc->host) return MPI_SUCCESS;
  auto e=enter("MPI_Finalize",cproc->world,0,nullptr,0); if(e->sync||true) wait_all("MPI_Finalize",cproc->world,e); leave(cproc->world,e);
  for(auto&k:cproc->self->attrs) (void)k; cproc->mpi_final=true; cproc->mpi_ends++; return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm,int code){ ENTER; fail("abort","rank %d called MPI_Abort(%d)",cproc->rank,code); }
double MPI_Wtime(void){ clock_tick(); return (g_now+(cproc?cproc->mono_off:0))*1e-9; }
double MPI_Wtick(void){ return 1e-9; }
int MPI_Get_library_version(char*v,int*l){ strcpy(v,"simulated MPI"); *l=(int)strlen(v); return 0; }
int MPI_Get_version(int*v,int*s){ *v=3; *s=1; return 0; }
int MPI_Get_processor_name(char*v,int*l){ strcpy(v,"sim"); *l=3; return 0; }
int MPI_Query_thread(int*p){ *p=MPI_THREAD_MULTIPLE; return 0; }
int MPI_Error_string(int c,char*s,int*l){ *l=sprintf(s,"error %d",c); return 0; }
int MPI_Error_class(int c,int*k){ *k=c; return 0; }
int MPI_Add_error_class(int*c){ static int n=MPI_ERR_LASTCODE; *c=++n; return 0; }
int MPI_Add_error_code(int,int*c){ return MPI_Add_error_class(c); }
int MPI_Alloc_mem(MPI_Aint n,MPI_Info,void*p){ *(void**)p=malloc(n); return 0; }
int MPI_Free_mem(void*p){ free(p); return 0; }
int MPI_Get_address(const void*p,MPI_Aint*a){ *a=(MPI_Aint)p; return 0; }
// ------------------------------------------------------------------ communicators
int MPI_Comm_rank(MPI_Comm c,int*r){ ENTER; *r=C("MPI_Comm_rank",c)->rank; return 0; }
int MPI_Comm_size(MPI_Comm c,int*n){ ENTER; *n=C("MPI_Comm_size",c)->core->n; return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ ENTER; auto x=C("MPI_Comm_compare",a),y=C("MPI_Comm_compare",b); if(x==y)*r=MPI_IDENT; else if(x->core->group==y->core->group)*r= x->core==y->core?MPI_IDENT:MPI_CONGRUENT; else { auto g=x->core->group,h=y->core->group; std::sort(g.begin(),g.end()); std::sort(h.begin(),h.end()); *r=g==h?MPI_SIMILAR:MPI_UNEQUAL; } return 0; }
int MPI_Comm_test_inter(MPI_Comm c,int*f){ ENTER; C("MPI_Comm_test_inter",c); *f=0; return 0; }
int MPI_Comm_set_name(MPI_Comm c,const char*n){ ENTER; auto h=C("MPI_Comm_set_name",c); h->name=std::string(n).substr(0,MPI_MAX_OBJECT_NAME-1); return 0; }
int MPI_Comm_get_name(MPI_Comm c,char*n,int*l){ ENTER; auto h=C("MPI_Comm_get_name",c); memset(n,0,MPI_MAX_OBJECT_NAME); memcpy(n,h->name.data(),h->name.size()); n[h->name.size()]=0; *l=(int)h->name.size(); return 0; }
static void copy_attrs(MPI_Comm oc, CommH*from, CommH*to){
  auto a=from->attrs; for(auto&kv:a){ auto&k=keyvals[kv.first]; if(!k.c||k.c==MPI_COMM_NULL_COPY_FN) continue; void*o=nullptr; int fl=0; if(k.c==MPI_COMM_DUP_FN){ o=kv.second; fl=1; } else { int& s=cur?cur->insim:g_insim_host; int keep=s; s=0; k.c(oc,kv.first,k.x,kv.second,&o,&fl); s=keep; } if(fl) to->attrs[kv.first]=o; }
}
static int delete_attr(MPI_Comm c,CommH*h,int kv){ auto it=h->attrs.find(kv); if(it==h->attrs.end()) return 0; void*v=it->second; auto&k=keyvals[kv]; if(k.d&&k.d!=MPI_COMM_NULL_DELETE_FN){ int& s=cur?cur->insim:g_insim_host; int keep=s; s=0; int r=k.d(c,kv,v,k.x); s=keep; if(r) return r; } h->attrs.erase(kv); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*o){
  ENTER; auto h=C("MPI_Comm_dup",c); auto e=enter("MPI_Comm_dup",h,0,nullptr,0); if(!e->newcore[0]) e->newcore[0]=new_core(h->core->group);
  if(e->sync) wait_all("MPI_Comm_dup",h,e);
  auto n=new_comm(e->newcore[0],cproc,""); n->eh=h->eh; copy_attrs(c,h,n); leave(h,e); *o=H(n); cproc->comms++; return 0;
}
int MPI_Comm_dup_with_info(MPI_Comm c,MPI_Info,MPI_Comm*o){ return MPI_Comm_dup(c,o); }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*o){
  ENTER; auto h=C("MPI_Comm_split",c); auto e=enter("MPI_Comm_split",h,0,nullptr,0); e->aux[h->rank]={color,key}; if(color<0&&color!=MPI_UNDEFINED) usage("MPI_Comm_split","negative colour %d",color);
  wait_all("MPI_Comm_split",h,e);
  if(!e->resolved){ e->resolved=true; std::map<int,std::vector<std::pair<int,int>>> m; for(int r=0;r<h->core->n;r++) if(e->aux[r][0]!=MPI_UNDEFINED) m[e->aux[r][0]].push_back({e->aux[r][1],r}); for(auto&kv:m){ std::stable_sort(kv.second.begin(),kv.second.end()); std::vector<int> g; for(auto&x:kv.second) g.push_back(h->core->group[x.second]); Core*k=new_core(g); for(auto&x:kv.second) e->newcore[x.second]=k; } }
  Core*k=e->newcore[h->rank]; leave(h,e); if(!k){ *o=MPI_COMM_NULL; return 0; } auto n=new_comm(k,cproc); n->eh=h->eh; *o=H(n); cproc->comms++; return 0;
}
int MPI_Comm_split_type(MPI_Comm c,int t,int key,MPI_Info,MPI_Comm*o){ return MPI_Comm_split(c,t==MPI_UNDEFINED?MPI_UNDEFINED:0,key,o); }
static GroupH* G(const char*fn,MPI_Group g){ if(g==MPI_GROUP_EMPTY) return &empty_group; if(g==MPI_GROUP_NULL) usage(fn,"null group"); if(!live_groups.count((void*)g)) usage(fn,"invalid or freed group"); return (GroupH*)(void*)g; }
static MPI_Group newg(std::vector<int> v){ auto*g=new GroupH; g->g=std::move(v); live_groups.insert(g); cproc->groups++; return (MPI_Group)(void*)g; }
int MPI_Comm_create(MPI_Comm c,MPI_Group g,MPI_Comm*o){
  ENTER; auto h=C("MPI_Comm_create",c); auto gh=G("MPI_Comm_create",g); auto e=enter("MPI_Comm_create",h,0,nullptr,0); e->aux[h->rank]=gh->g;
  int me=-1; for(int x:gh->g) if(x==cproc->rank) me=x;
  Core*k=nullptr; if(me>=0){ for(int r=0;r<h->core->n;r++) if(e->here[r]&&e->newcore[r]&&e->aux[r]==gh->g) k=e->newcore[r]; if(!k) k=new_core(gh->g); e->newcore[h->rank]=k; }
  if(e->sync) wait_all("MPI_Comm_create",h,e);
  leave(h,e); if(!k){ *o=MPI_COMM_NULL; return 0; } auto n=new_comm(k,cproc); n->eh=h->eh; *o=H(n); cproc->comms++; return 0;
}
int MPI_Comm_create_group(MPI_Comm c,MPI_Group g,int tag,MPI_Comm*o){
  ENTER; auto h=C("MPI_Comm_create_group",c); auto gh=G("MPI_Comm_create_group",g); check_tag("MPI_Comm_create_group",tag,false);
  int me=-1; for(size_t i=0;i<gh->g.size();i++){ if(gh->g[i]==cproc->rank) me=(int)i; bool in=false; for(int x:h->core->group) if(x==gh->g[i]) in=true; if(!in) usage("MPI_Comm_create_group","group is not a subset of the communicator"); }
  yield("MPI_Comm_create_group");
  if(me<0){ *o=MPI_COMM_NULL; return 0; }
  std::string key=std::to_string(h->core->id)+"/"+std::to_string(tag)+"/"; for(int x:gh->g) key+=std::to_string(x)+",";
  int inst=h->core->cgcount[key+"@"+std::to_string(me)]++; key+="#"+std::to_string(inst);
  auto& e=cgroups[key]; if(!e){ e=std::make_shared<Coll>(); e->kind="MPI_Comm_create_group"; e->newcore.assign(1,new_core(gh->g)); e->sync=g_faults?choose(NET,2,net.p_sync,"create_group synchronises"):0; if(e->sync) count_fault("collective made synchronising"); }
  auto s=e; s->arrived++; g_progress++; int n=(int)gh->g.size(); if(s->sync&&s->arrived<n) block("MPI_Comm_create_group",[s,n]{ return s->arrived>=n; });
  auto nh=new_comm(s->newcore[0],cproc); nh->eh=h->eh; *o=H(nh); cproc->comms++; return 0;
}
int MPI_Comm_free(MPI_Comm*c){
  ENTER; auto h=C("MPI_Comm_free",*c); if(h==cproc->world||h==cproc->self) usage("MPI_Comm_free","cannot free a predefined communicator");
  auto a=h->attrs; for(auto&kv:a) delete_attr(*c,h,kv.first);
  h->freed=true; h->core->nfreed++; cproc->comms--; *c=MPI_COMM_NULL; yield("MPI_Comm_free"); return 0;
}
int MPI_Comm_disconnect(MPI_Comm*c){ return MPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c,MPI_Group*g){ ENTER; auto h=C("MPI_Comm_group",c); *g=newg(h->core->group); return 0; }
int MPI_Group_free(MPI_Group*g){ ENTER; auto h=G("MPI_Group_free",*g); if(!h->predefined){ live_groups.erase(h); cproc->groups--; delete h; } *g=MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g,int*n){ ENTER; *n=(int)G("MPI_Group_size",g)->g.size(); return 0; }
int MPI_Group_rank(MPI_Group g,int*r){ ENTER; auto h=G("MPI_Group_rank",g); *r=MPI_UNDEFINED; for(size_t i=0;i<h->g.size();i++) if(h->g[i]==cproc->rank) *r=(int)i; return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int*r,MPI_Group*o){ ENTER; auto h=G("MPI_Group_incl",g); std::vector<int> v; for(int i=0;i<n;i++){ if(r[i]<0||r[i]>=(int)h->g.size()) usage("MPI_Group_incl","rank %d outside the group",r[i]); int x=h->g[r[i]]; if(std::find(v.begin(),v.end(),x)!=v.end()) usage("MPI_Group_incl","duplicate rank"); v.push_back(x);} *o=newg(v); return 0; }
int MPI_Group_excl(MPI_Group g,int n,const int*r,MPI_Group*o){ ENTER; auto h=G("MPI_Group_excl",g); std::vector<int> v; for(int i=0;i<(int)h->g.size();i++) if(std::find(r,r+n,i)==r+n) v.push_back(h->g[i]); *o=newg(v); return 0; }
int MPI_Group_range_incl(MPI_Group g,int n,int r[][3],MPI_Group*o){ ENTER; auto h=G("MPI_Group_range_incl",g); std::vector<int> v; for(int i=0;i<n;i++){ int a=r[i][0],b=r[i][1],s=r[i][2]; if(s==0) usage("MPI_Group_range_incl","stride 0"); if((s>0&&b<a)||(s<0&&b>a)) usage("MPI_Group_range_incl","range {%d:%d:%d} is empty",a,b,s); for(int x=a; s>0?x<=b:x>=b; x+=s){ if(x<0||x>=(int)h->g.size()) usage("MPI_Group_range_incl","rank %d is outside the group (size %zu)",x,h->g.size()); int y=h->g[x]; if(std::find(v.begin(),v.end(),y)!=v.end()) usage("MPI_Group_range_incl","duplicate rank"); v.push_back(y);} } *o=newg(v); return 0; }
int MPI_Group_range_excl(MPI_Group g,int n,int r[][3],MPI_Group*o){ ENTER; auto h=G("MPI_Group_range_excl",g); std::set<int> out; for(int i=0;i<n;i++) for(int x=r[i][0]; r[i][2]>0?x<=r[i][1]:x>=r[i][1]; x+=r[i][2]) out.insert(x); std::vector<int> v; for(int i=0;i<(int)h->g.size();i++) if(!out.count(i)) v.push_back(h->g[i]); *o=newg(v); return 0; }
int MPI_Group_union(MPI_Group a,MPI_Group b,MPI_Group*o){ ENTER; auto v=G("MPI_Group_union",a)->g; for(int x:G("MPI_Group_union",b)->g) if(std::find(v.begin(),v.end(),x)==v.end()) v.push_back(x); *o=newg(v); return 0; }
int MPI_Group_intersection(MPI_Group a,MPI_Group b,MPI_Group*o){ ENTER; std::vector<int> v; auto&B=G("MPI_Group_intersection",b)->g; for(int x:G("MPI_Group_intersection",a)->g) if(std::find(B.begin(),B.end(),x)!=B.end()) v.push_back(x); *o=newg(v); return 0; }
int MPI_Group_difference(MPI_Group a,MPI_Group b,MPI_Group*o){ ENTER; std::vector<int> v; auto&B=G("MPI_Group_difference",b)->g; for(int x:G("MPI_Group_difference",a)->g) if(std::find(B.begin(),B.end(),x)==B.end()) v.push_back(x); *o=newg(v); return 0; }
int MPI_Group_translate_ranks(MPI_Group a,int n,const int*r,MPI_Group b,int*o){ ENTER; auto&A=G("MPI_Group_translate_ranks",a)->g; auto&B=G("MPI_Group_translate_ranks",b)->g; for(int i=0;i<n;i++){ if(r[i]==MPI_PROC_NULL){o[i]=MPI_PROC_NULL;continue;} if(r[i]<0||r[i]>=(int)A.size()) usage("MPI_Group_translate_ranks","rank %d outside the group",r[i]); auto it=std::find(B.begin(),B.end(),A[r[i]]); o[i]=it==B.end()?MPI_UNDEFINED:(int)(it-B.begin()); } return 0; }
int MPI_Group_compare(MPI_Group a,MPI_Group b,int*r){ ENTER; auto g=G("MPI_Group_compare",a)->g,h=G("MPI_Group_compare",b)->g; if(g==h)*r=MPI_IDENT; else { std::sort(g.begin(),g.end()); std::sort(h.begin(),h.end()); *r=g==h?MPI_SIMILAR:MPI_UNEQUAL; } return 0; }
// attributes
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*c,MPI_Comm_delete_attr_function*d,int*k,void*x){ ENTER; *k=(int)keyvals.size(); keyvals.push_back({c,d,x,false}); return 0; }
int MPI_Comm_free_keyval(int*k){ ENTER; *k=MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c,int k,void*v){ ENTER; auto h=C("MPI_Comm_set_attr",c); if(k<64||k>=(int)keyvals.size()) usage("MPI_Comm_set_attr","invalid keyval %d",k); if(h->attrs.count(k)) delete_attr(c,h,k); h->attrs[k]=v; return 0; }
int MPI_Comm_get_attr(MPI_Comm c,int k,void*v,int*f){ ENTER; auto h=C("MPI_Comm_get_attr",c); static int ub=0x7fffffff, wg=1, hst=MPI_PROC_NULL, io=MPI_ANY_SOURCE;
  if(k==MPI_TAG_UB){ *(int**)v=&ub; *f=1; return 0; } if(k==MPI_WTIME_IS_GLOBAL){ *(int**)v=&wg; *f=1; return 0; } if(k==MPI_HOST){ *(int**)v=&hst; *f=1; return 0; } if(k==MPI_IO){ *(int**)v=&io; *f=1; return 0; }
  auto it=h->attrs.find(k); *f=it!=h->attrs.end(); if(*f) *(void**)v=it->second; return 0; }
int MPI_Comm_delete_attr(MPI_Comm c,int k){ ENTER; return delete_attr(c,C("MPI_Comm_delete_attr",c),k); }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*,MPI_Errhandler*e){ ENTER; *e=(MPI_Errhandler)malloc(8); return 0; }
int MPI_Errhandler_free(MPI_Errhandler*e){ *e=MPI_ERRHANDLER_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c,MPI_Errhandler e){ ENTER; C("MPI_Comm_set_errhandler",c)->eh=e; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c,MPI_Errhandler*e){ ENTER; *e=C("MPI_Comm_get_errhandler",c)->eh; return 0; }
// info: nothing is remembered
static char info_obj[8];
int MPI_Info_create(MPI_Info*i){ *i=(MPI_Info)(void*)info_obj; return 0; }
int MPI_Info_dup(MPI_Info,MPI_Info*o){ *o=(MPI_Info)(void*)info_obj; return 0; }
int MPI_Info_free(MPI_Info*i){ *i=MPI_INFO_NULL; return 0; }
int MPI_Info_set(MPI_Info,const char*,const char*){ return 0; }
int MPI_Info_get(MPI_Info,const char*,int,char*,int*f){ *f=0; return 0; }
int MPI_Info_get_nkeys(MPI_Info,int*n){ *n=0; return 0; }
// ------------------------------------------------------------------ datatypes
static MPI_Datatype regt(TypeH*t){ live_types.insert(t); cproc->types++; return (MPI_Datatype)(void*)t; }
static void place(TypeH*o,TypeH*t,ptrdiff_t at){ for(auto&s:t->segs){ if(!o->segs.empty()&&o->segs.back().off+(ptrdiff_t)o->segs.back().len==at+s.off) o->segs.back().len+=s.len; else o->segs.push_back({at+s.off,s.len}); } o->size+=t->size; }
static void bounds(TypeH*o){ ptrdiff_t a=0,b=0; bool f=true; for(auto&s:o->segs){ if(f||s.off<a) a=s.off; if(f||s.off+(ptrdiff_t)s.len>b) b=s.off+s.len; f=false; } o->lb=a; o->extent=b-a; }
int MPI_Type_contiguous(int n,MPI_Datatype d,MPI_Datatype*o){ ENTER; auto t=T("MPI_Type_contiguous",d); auto*x=new TypeH; x->cls=t->cls; x->elem=t->elem; for(int i=0;i<n;i++) place(x,t,i*t->extent); x->lb=t->lb; x->extent=n*t->extent; *o=regt(x); return 0; }
int MPI_Type_vector(int n,int bl,int st,MPI_Datatype d,MPI_Datatype*o){ ENTER; auto t=T("MPI_Type_vector",d); auto*x=new TypeH; x->cls=t->cls; x->elem=t->elem; for(int i=0;i<n;i++) for(int j=0;j<bl;j++) place(x,t,(ptrdiff_t)(i*st+j)*t->extent); bounds(x); *o=regt(x); return 0; }
int MPI_Type_create_struct(int n,const int*bl,const MPI_Aint*dp,const MPI_Datatype*d,MPI_Datatype*o){ ENTER; auto*x=new TypeH; for(int i=0;i<n;i++){ auto t=T("MPI_Type_create_struct",d[i]); if(i==0||x->cls==t->cls){ x->cls=t->cls; x->elem=t->elem; } else { x->cls=C_RAW; x->elem=1; } for(int j=0;j<bl[i];j++) place(x,t,dp[i]+j*t->extent); } bounds(x); *o=regt(x); return 0; }
int MPI_Type_indexed(int n,const int*bl,const int*dp,MPI_Datatype d,MPI_Datatype*o){ ENTER; auto t=T("MPI_Type_indexed",d); auto*x=new TypeH; x->cls=t->cls; x->elem=t->elem; for(int i=0;i<n;i++) for(int j=0;j<bl[i];j++) place(x,t,(ptrdiff_t)(dp[i]+j)*t->extent); bounds(x); *o=regt(x); return 0; }
int MPI_Type_create_indexed_block(int n,int bl,const int*dp,MPI_Datatype d,MPI_Datatype*o){ ENTER; std::vector<int> b(n,bl); return MPI_Type_indexed(n,b.data(),dp,d,o); }
int MPI_Type_create_resized(MPI_Datatype d,MPI_Aint lb,MPI_Aint ex,MPI_Datatype*o){ ENTER; auto*x=new TypeH(*T("MPI_Type_create_resized",d)); x->predefined=false; x->lb=lb; x->extent=ex; *o=regt(x); return 0; }
int MPI_Type_dup(MPI_Datatype d,MPI_Datatype*o){ ENTER; auto*x=new TypeH(*T("MPI_Type_dup",d)); x->predefined=false; *o=regt(x); return 0; }
int MPI_Type_commit(MPI_Datatype*d){ ENTER; T("MPI_Type_commit",*d); return 0; }
int MPI_Type_free(MPI_Datatype*d){ ENTER; auto t=T("MPI_Type_free",*d); if(t->predefined) usage("MPI_Type_free","predefined datatype"); live_types.erase(t); cproc->types--; *d=MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype d,int*n){ ENTER; *n=(int)T("MPI_Type_size",d)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype d,MPI_Aint*lb,MPI_Aint*ex){ ENTER; auto t=T("MPI_Type_get_extent",d); *lb=t->lb; *ex=t->extent; return 0; }
int MPI_Type_get_true_extent(MPI_Datatype d,MPI_Aint*lb,MPI_Aint*ex){ return MPI_Type_get_extent(d,lb,ex); }
int MPI_Type_get_envelope(MPI_Datatype d,int*a,int*b,int*c,int*k){ ENTER; auto t=T("MPI_Type_get_envelope",d); *a=*b=*c=0; if(!t->predefined) infra("MPI_Type_get_envelope on a derived type"); *k=MPI_COMBINER_NAMED; return 0; }
int MPI_Op_create(MPI_User_function*f,int c,MPI_Op*o){ ENTER; auto*h=new OpH{f,c!=0}; live_ops.insert(h); cproc->types++; *o=(MPI_Op)(void*)h; return 0; }
int MPI_Op_free(MPI_Op*o){ ENTER; if(live_ops.erase((void*)*o)) cproc->types--; *o=MPI_OP_NULL; return 0; }
// ------------------------------------------------------------------ point to point
static Req* mk(const char*fn,MPI_Comm c,Req::Kind k,void*b,int n,MPI_Datatype d,int peer,int tag,bool sync){
  auto h=C(fn,c); auto t=T(fn,d); if(n<0) usage(fn,"negative count %d",n); check_peer(fn,h,peer,k==Req::RECV); check_tag(fn,tag,k==Req::RECV);
  Req*r=new_req(h,k,fn); r->buf=b; r->count=n; r->type=t; r->peer=peer; r->tag=tag; r->sync=sync; return r;
}
static void finish_blocking(const char*fn,Req*r,MPI_Status*st){ if(!req_done(r)) block(fn,[r]{ return req_done(r); }); MPI_Request q=(MPI_Request)(void*)r; reap(&q,st); }
int MPI_Send(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ ENTER; yield("MPI_Send"); Req*r=mk("MPI_Send",c,Req::SEND,(void*)b,n,d,dst,tag,false); start_send(r); finish_blocking("MPI_Send",r,MPI_STATUS_IGNORE); return 0; }
int MPI_Ssend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ ENTER; yield("MPI_Ssend"); Req*r=mk("MPI_Ssend",c,Req::SEND,(void*)b,n,d,dst,tag,true); start_send(r); finish_blocking("MPI_Ssend",r,MPI_STATUS_IGNORE); return 0; }
int MPI_Rsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ return MPI_Send(b,n,d,dst,tag,c); }
int MPI_Recv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Status*st){ ENTER; yield("MPI_Recv"); Req*r=mk("MPI_Recv",c,Req::RECV,b,n,d,src,tag,false); start_recv(r); finish_blocking("MPI_Recv",r,st); return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ ENTER; yield("MPI_Isend"); Req*r=mk("MPI_Isend",c,Req::SEND,(void*)b,n,d,dst,tag,false); start_send(r); *q=(MPI_Request)(void*)r; return 0; }
int MPI_Issend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ ENTER; yield("MPI_Issend"); Req*r=mk("MPI_Issend",c,Req::SEND,(void*)b,n,d,dst,tag,true); start_send(r); *q=(MPI_Request)(void*)r; return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Request*q){ ENTER; yield("MPI_Irecv"); Req*r=mk("MPI_Irecv",c,Req::RECV,b,n,d,src,tag,false); start_recv(r); *q=(MPI_Request)(void*)r; return 0; }
int MPI_Send_init(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ ENTER; Req*r=mk("MPI_Send_init",c,Req::SEND,(void*)b,n,d,dst,tag,false); r->persistent=true; r->active=false; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Recv_init(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Request*q){ ENTER; Req*r=mk("MPI_Recv_init",c,Req::RECV,b,n,d,src,tag,false); r->persistent=true; r->active=false; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Start(MPI_Request*q){ ENTER; yield("MPI_Start"); Req*r=R("MPI_Start",*q); if(!r->persistent||r->active) usage("MPI_Start","not an inactive persistent request"); r->kind==Req::SEND?start_send(r):start_recv(r); return 0; }
int MPI_Startall(int n,MPI_Request*q){ for(int i=0;i<n;i++) MPI_Start(q+i); return 0; }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype sd,int dst,int stag,void*rb,int rn,MPI_Datatype rd,int src,int rtag,MPI_Comm c,MPI_Status*st){ ENTER; yield("MPI_Sendrecv"); Req*r=mk("MPI_Sendrecv",c,Req::RECV,rb,rn,rd,src,rtag,false); start_recv(r); Req*s=mk("MPI_Sendrecv",c,Req::SEND,(void*)sb,sn,sd,dst,stag,false); start_send(s); finish_blocking("MPI_Sendrecv",r,st); finish_blocking("MPI_Sendrecv",s,MPI_STATUS_IGNORE); return 0; }
int MPI_Sendrecv_replace(void*b,int n,MPI_Datatype d,int dst,int stag,int src,int rtag,MPI_Comm c,MPI_Status*st){ ENTER; std::string cp=pack(cproc,b,n,T("MPI_Sendrecv_replace",d)); return MPI_Sendrecv(cp.data(),(int)cp.size(),MPI_BYTE,dst,stag,b,n,d,src,rtag,c,st); }
int MPI_Request_free(MPI_Request*q){ ENTER; Req*r=R("MPI_Request_free",*q); if(r->persistent?r->active:!r->done) infra("MPI_Request_free on an active request"); drop_req(r); *q=MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request*q){ ENTER; Req*r=R("MPI_Cancel",*q); if(r->kind==Req::RECV&&!r->done){ auto&P=r->core->posted[r->myrank]; P.erase(std::remove(P.begin(),P.end(),r),P.end()); r->done=true; r->cancelled=true; } return 0; }
int MPI_Test_cancelled(const MPI_Status*s,int*f){ *f=s->_cancelled; return 0; }
int MPI_Wait(MPI_Request*q,MPI_Status*st){ ENTER; yield("MPI_Wait"); if(*q==MPI_REQUEST_NULL){ set_status(st,MPI_ANY_SOURCE,MPI_ANY_TAG,0); return 0; } Req*r=R("MPI_Wait",*q); if(!req_done(r)) block("MPI_Wait",[r]{ return req_done(r); }); reap(q,st); return 0; }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*st){ ENTER; yield("MPI_Waitall"); for(int i=0;i<n;i++){ MPI_Status*s=st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:st+i; if(q[i]==MPI_REQUEST_NULL){ set_status(s,MPI_ANY_SOURCE,MPI_ANY_TAG,0); continue; } Req*r=R("MPI_Waitall",q[i]); if(!req_done(r)) block("MPI_Waitall",[r]{ return req_done(r); }); reap(q+i,s); } return 0; }
static int collect_done(const char*fn,int n,MPI_Request*q,std::vector<int>&done){ int act=0; for(int i=0;i<n;i++){ if(q[i]==MPI_REQUEST_NULL) continue; Req*r=R(fn,q[i]); if(!r->active) continue; act++; if(req_done(r)) done.push_back(i); } return act; }
static void wait_some_ready(const char*fn,int n,MPI_Request*q){ std::vector<Req*> rs; for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL) rs.push_back(R(fn,q[i])); block(fn,[rs]{ for(auto r:rs) if(r->active&&req_done(r)) return true; return false; }); }
int MPI_Waitany(int n,MPI_Request*q,int*idx,MPI_Status*st){ ENTER; yield("MPI_Waitany"); std::vector<int> d; if(!collect_done("MPI_Waitany",n,q,d)){ *idx=MPI_UNDEFINED; set_status(st,MPI_ANY_SOURCE,MPI_ANY_TAG,0); return 0; } if(d.empty()){ wait_some_ready("MPI_Waitany",n,q); collect_done("MPI_Waitany",n,q,d); } int k=d.size()>1&&g_faults?choose(NET,(int)d.size(),0.5,"waitany"):0; *idx=d[k]; reap(q+d[k],st); return 0; }
int MPI_Waitsome(int n,MPI_Request*q,int*out,int*idx,MPI_Status*st){ ENTER; yield("MPI_Waitsome"); std::vector<int> d; if(!collect_done("MPI_Waitsome",n,q,d)){ *out=MPI_UNDEFINED; return 0; } if(d.empty()){ wait_some_ready("MPI_Waitsome",n,q); collect_done("MPI_Waitsome",n,q,d); } int m=(int)d.size(); if(m>1&&g_faults) m-=choose(NET,m,0.3,"waitsome returns fewer"); *out=m; for(int i=0;i<m;i++){ idx[i]=d[i]; reap(q+d[i],st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:st+i); } return 0; }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*st){ ENTER; yield("MPI_Test"); if(*q==MPI_REQUEST_NULL){ *f=1; set_status(st,MPI_ANY_SOURCE,MPI_ANY_TAG,0); return 0; } Req*r=R("MPI_Test",*q); if(req_done(r)){ *f=1; reap(q,st); } else { *f=0; poll_failed("MPI_Test"); } return 0; }
int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*st){ ENTER; yield("MPI_Testall"); for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL&&!req_done(R("MPI_Testall",q[i]))){ *f=0; poll_failed("MPI_Testall"); return 0; } *f=1; for(int i=0;i<n;i++){ MPI_Status*s=st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:st+i; if(q[i]==MPI_REQUEST_NULL) set_status(s,MPI_ANY_SOURCE,MPI_ANY_TAG,0); else reap(q+i,s); } return 0; }
int MPI_Testany(int n,MPI_Request*q,int*idx,int*f,MPI_Status*st){ ENTER; yield("MPI_Testany"); std::vector<int> d; if(!collect_done("MPI_Testany",n,q,d)){ *f=1; *idx=MPI_UNDEFINED; return 0; } if(d.empty()){ *f=0; poll_failed("MPI_Testany"); return 0; } *f=1; *idx=d[0]; reap(q+d[0],st); return 0; }
int MPI_Testsome(int n,MPI_Request*q,int*out,int*idx,MPI_Status*st){ ENTER; yield("MPI_Testsome"); std::vector<int> d; if(!collect_done("MPI_Testsome",n,q,d)){ *out=MPI_UNDEFINED; return 0; } *out=(int)d.size(); if(d.empty()) poll_failed("MPI_Testsome"); for(size_t i=0;i<d.size();i++){ idx[i]=d[i]; reap(q+d[i],st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:st+i); } return 0; }
static Msg* peek(Core*c,int dst,int src,int tag){ progress(c,dst); Req pr; pr.peer=src; pr.tag=tag; std::vector<Msg*> cand; std::set<int> seen; for(auto m:c->q[dst]){ if(!matches(&pr,m)||seen.count(m->src)) continue; seen.insert(m->src); if(m->avail<=g_now) cand.push_back(m); } if(cand.empty()) return nullptr; int k=cand.size()>1&&g_faults?choose(NET,(int)cand.size(),0.7,"probe wildcard"):0; return cand[k]; }
int MPI_Iprobe(int src,int tag,MPI_Comm c,int*f,MPI_Status*st){ ENTER; yield("MPI_Iprobe"); auto h=C("MPI_Iprobe",c); check_peer("MPI_Iprobe",h,src,true); Msg*m=peek(h->core,h->rank,src,tag); *f=m!=nullptr; if(m){ g_progress++; set_status(st,m->src,m->tag,m->bytes); } else poll_failed("MPI_Iprobe"); return 0; }
int MPI_Probe(int src,int tag,MPI_Comm c,MPI_Status*st){ ENTER; yield("MPI_Probe"); auto h=C("MPI_Probe",c); check_peer("MPI_Probe",h,src,true); Core*k=h->core; int me=h->rank; auto any=[k,me,src,tag]{ Req pr; pr.peer=src; pr.tag=tag; for(auto m:k->q[me]) if(matches(&pr,m)&&m->avail<=g_now) return true; return false; }; progress(k,me); if(!any()) block("MPI_Probe",any); Msg*m=peek(k,me,src,tag); if(!m) infra("probe lost its message"); set_status(st,m->src,m->tag,m->bytes); return 0; }
int MPI_Get_count(const MPI_Status*st,MPI_Datatype d,int*n){ ENTER; auto t=T("MPI_Get_count",d); if(!t->size) *n=0; else if(st->_ucount%t->size) *n=MPI_UNDEFINED; else *n=(int)(st->_ucount/t->size); return 0; }
int MPI_Get_elements(const MPI_Status*st,MPI_Datatype d,int*n){ return MPI_Get_count(st,d,n); }
// ------------------------------------------------------------------ collectives
static long sg(TypeH*t,int n){ return (long)(t->size*(size_t)n); }
static void cnt(const char*fn,int n){ if(n<0) usage(fn,"negative count %d",n); }
static void put(const char*fn,void*b,TypeH*t,int count,const std::string&d){ if(d.size()>t->size*(size_t)count) fail("mpi-usage","rank %d: %s: message truncated, %zu bytes into a buffer of %zu",cproc->rank,fn,d.size(),t->size*(size_t)count); unpack(cproc,b,t,d.data(),d.size()); }
int MPI_Barrier(MPI_Comm c){ ENTER; auto h=C("MPI_Barrier",c); auto e=enter("MPI_Barrier",h,0,nullptr,0); wait_all("MPI_Barrier",h,e); leave(h,e); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype d,int root,MPI_Comm c){
  ENTER; auto h=C("MPI_Bcast",c); auto t=T("MPI_Bcast",d); cnt("MPI_Bcast",n); if(root<0||root>=h->core->n) usage("MPI_Bcast","root %d is not in the communicator",root);
  auto e=enter("MPI_Bcast",h,root,nullptr,sg(t,n)); clscheck("MPI_Bcast",h,e,t);
  if(h->rank==root){ e->data[root]=pack(cproc,b,n,t); if(e->sync) wait_all("MPI_Bcast",h,e); }
  else { wait_root("MPI_Bcast",h,e,root); put("MPI_Bcast",b,t,n,e->data[root]); }
  leave(h,e); return 0;
}
static void croot(const char*fn,CommH*h,int root){ if(root<0||root>=h->core->n) usage(fn,"root %d is not in the communicator",root); }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,int root,MPI_Comm c){
  ENTER; auto h=C("MPI_Reduce",c); auto t=T("MPI_Reduce",d); cnt("MPI_Reduce",n); croot("MPI_Reduce",h,root); auto e=enter("MPI_Reduce",h,root,opcode(op)<0?nullptr:(void*)op,sg(t,n)); clscheck("MPI_Reduce",h,e,t);
  e->data[h->rank]=pack(cproc,inpl(s,r),n,t);
  if(h->rank==root||e->sync) wait_all("MPI_Reduce",h,e);
  if(h->rank==root) put("MPI_Reduce",r,t,n,fold("MPI_Reduce",*e,op,d,t,n,h->core->n));
  leave(h,e); return 0;
}
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){
  ENTER; auto h=C("MPI_Allreduce",c); auto t=T("MPI_Allreduce",d); cnt("MPI_Allreduce",n); auto e=enter("MPI_Allreduce",h,0,opcode(op)<0?nullptr:(void*)op,sg(t,n)); clscheck("MPI_Allreduce",h,e,t);
  e->data[h->rank]=pack(cproc,inpl(s,r),n,t); wait_all("MPI_Allreduce",h,e);
  if(!e->resolved){ e->result=fold("MPI_Allreduce",*e,op,d,t,n,h->core->n); e->resolved=true; }
  put("MPI_Allreduce",r,t,n,e->result); leave(h,e); return 0;
}
static int scan_(const char*fn,bool ex,const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){
  auto h=C(fn,c); auto t=T(fn,d); cnt(fn,n); auto e=enter(fn,h,0,opcode(op)<0?nullptr:(void*)op,sg(t,n)); clscheck(fn,h,e,t);
  e->data[h->rank]=pack(cproc,inpl(s,r),n,t); int me=h->rank;
  if(e->sync) wait_all(fn,h,e); else { auto pr=[e,me]{ for(int i=0;i<me;i++) if(!e->here[i]) return false; return true; }; if(!pr()) block(fn,pr); }
  int up=ex?me:me+1; if(up>0) put(fn,r,t,n,fold(fn,*e,op,d,t,n,up)); leave(h,e); return 0;
}
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ ENTER; return scan_("MPI_Scan",false,s,r,n,d,op,c); }
int MPI_Exscan(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ ENTER; return scan_("MPI_Exscan",true,s,r,n,d,op,c); }
int MPI_Reduce_local(const void*in,void*io,int n,MPI_Datatype d,MPI_Op op){ ENTER; auto t=T("MPI_Reduce_local",d); std::string a=pack(cproc,in,n,t),b=pack(cproc,io,n,t); reduce1("MPI_Reduce_local",op,d,t,n,b,a); unpack(cproc,io,t,b.data(),b.size()); return 0; }
int MPI_Reduce_scatter(const void*s,void*r,const int*cn,MPI_Datatype d,MPI_Op op,MPI_Comm c){
  ENTER; auto h=C("MPI_Reduce_scatter",c); auto t=T("MPI_Reduce_scatter",d); int n=0,off=0; for(int i=0;i<h->core->n;i++){ if(i<h->rank) off+=cn[i]; n+=cn[i]; } auto e=enter("MPI_Reduce_scatter",h,0,opcode(op)<0?nullptr:(void*)op,sg(t,n));
  e->data[h->rank]=pack(cproc,inpl(s,r),n,t); wait_all("MPI_Reduce_scatter",h,e); std::string f=fold("MPI_Reduce_scatter",*e,op,d,t,n,h->core->n); put("MPI_Reduce_scatter",r,t,cn[h->rank],f.substr(off*t->size,cn[h->rank]*t->size)); leave(h,e); return 0;
}
int MPI_Reduce_scatter_block(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ ENTER; auto h=C("MPI_Reduce_scatter_block",c); std::vector<int> v(h->core->n,n); return MPI_Reduce_scatter(s,r,v.data(),d,op,c); }
// gather family; counts are per-rank
static int gather_(const char*fn,bool all,bool v,const void*s,int sn,MPI_Datatype sd,void*r,int rn,const int*rc,const int*dp,MPI_Datatype rd,int root,MPI_Comm c){
  auto h=C(fn,c); int me=h->rank,n=h->core->n; if(!all) croot(fn,h,root); bool recv=all||me==root; TypeH*rt=recv?T(fn,rd):nullptr;
  auto cnt_of=[&](int i){ return v?rc[i]:rn; }; auto off_of=[&](int i){ return (ptrdiff_t)(v?dp[i]:i*rn)*rt->extent; };
  if(recv) for(int i=0;i<n;i++) cnt(fn,cnt_of(i));
  auto e=enter(fn,h,all?0:root,nullptr,0);
  if(s==MPI_IN_PLACE){ if(!recv) usage(fn,"MPI_IN_PLACE at a non-root"); e->data[me]=pack(cproc,(char*)r+off_of(me),cnt_of(me),rt); clscheck(fn,h,e,rt); }
  else { cnt(fn,sn); auto st=T(fn,sd); e->data[me]=pack(cproc,s,sn,st); clscheck(fn,h,e,st); if(recv&&rt->cls!=C_RAW&&st->cls!=C_RAW&&(rt->cls!=st->cls||rt->elem!=st->elem)) usage(fn,"send and receive datatypes differ"); }
  if(recv||e->sync) wait_all(fn,h,e);
  if(recv) for(int i=0;i<n;i++){ size_t cap=rt->size*(size_t)cnt_of(i); if(e->data[i].size()!=cap) fail("mpi-usage","rank %d: %s: rank %d sent %zu bytes where %zu are expected",me,fn,i,e->data[i].size(),cap); if(i==me&&s==MPI_IN_PLACE) continue; unpack(cproc,(char*)r+off_of(i),rt,e->data[i].data(),e->data[i].size()); }
  leave(h,e); return 0;
}
int MPI_Gather(const void*s,int sn,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c){ ENTER; return gather_("MPI_Gather",false,false,s,sn,sd,r,rn,nullptr,nullptr,rd,root,c); }
int MPI_Gatherv(const void*s,int sn,MPI_Datatype sd,void*r,const int*rc,const int*dp,MPI_Datatype rd,int root,MPI_Comm c){ ENTER; return gather_("MPI_Gatherv",false,true,s,sn,sd,r,0,rc,dp,rd,root,c); }
int MPI_Allgather(const void*s,int sn,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,MPI_Comm c){ ENTER; return gather_("MPI_Allgather",true,false,s,sn,sd,r,rn,nullptr,nullptr,rd,0,c); }
int MPI_Allgatherv(const void*s,int sn,MPI_Datatype sd,void*r,const int*rc,const int*dp,MPI_Datatype rd,MPI_Comm c){ ENTER; return gather_("MPI_Allgatherv",true,true,s,sn,sd,r,0,rc,dp,rd,0,c); }
static int scatter_(const char*fn,bool v,const void*s,int sn,const int*sc,const int*dp,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c){
  auto h=C(fn,c); croot(fn,h,root); int me=h->rank,n=h->core->n; auto e=enter(fn,h,root,nullptr,0);
  if(me==root){ auto st=T(fn,sd); for(int i=0;i<n;i++){ int k=v?sc[i]:sn; cnt(fn,k); e->results[i]=pack(cproc,(const char*)s+(ptrdiff_t)(v?dp[i]:i*sn)*st->extent,k,st); } clscheck(fn,h,e,st); if(e->sync) wait_all(fn,h,e); }
  else wait_root(fn,h,e,root);
  if(!(me==root&&r==MPI_IN_PLACE)) put(fn,r,T(fn,rd),rn,e->results[me]);
  leave(h,e); return 0;
}
int MPI_Scatter(const void*s,int sn,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c){ ENTER; return scatter_("MPI_Scatter",false,s,sn,nullptr,nullptr,sd,r,rn,rd,root,c); }
int MPI_Scatterv(const void*s,const int*sc,const int*dp,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c){ ENTER; return scatter_("MPI_Scatterv",true,s,0,sc,dp,sd,r,rn,rd,root,c); }
static int alltoall_(const char*fn,bool v,const void*s,int sn,const int*sc,const int*sdp,MPI_Datatype sd,void*r,int rn,const int*rc,const int*rdp,MPI_Datatype rd,MPI_Comm c){
  auto h=C(fn,c); int me=h->rank,n=h->core->n; auto rt=T(fn,rd); auto e=enter(fn,h,0,nullptr,0); if(s==MPI_IN_PLACE) infra("%s in place",fn); auto st=T(fn,sd);
  std::string all; std::vector<int> off; for(int i=0;i<n;i++){ int k=v?sc[i]:sn; cnt(fn,k); off.push_back((int)all.size()); all+=pack(cproc,(const char*)s+(ptrdiff_t)(v?sdp[i]:i*sn)*st->extent,k,st); } off.push_back((int)all.size()); e->data[me]=all; e->aux[me]=off; clscheck(fn,h,e,st);
  wait_all(fn,h,e);
  for(int i=0;i<n;i++){ std::string d=e->data[i].substr(e->aux[i][me],e->aux[i][me+1]-e->aux[i][me]); int k=v?rc[i]:rn; if(d.size()!=rt->size*(size_t)k) fail("mpi-usage","rank %d: %s: rank %d sent %zu bytes where %zu are expected",me,fn,i,d.size(),rt->size*(size_t)k); unpack(cproc,(char*)r+(ptrdiff_t)(v?rdp[i]:i*rn)*rt->extent,rt,d.data(),d.size()); }
  leave(h,e); return 0;
}
int MPI_Alltoall(const void*s,int sn,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,MPI_Comm c){ ENTER; return alltoall_("MPI_Alltoall",false,s,sn,nullptr,nullptr,sd,r,rn,nullptr,nullptr,rd,c); }
int MPI_Alltoallv(const void*s,const int*sc,const int*sdp,MPI_Datatype sd,void*r,const int*rc,const int*rdp,MPI_Datatype rd,MPI_Comm c){ ENTER; return alltoall_("MPI_Alltoallv",true,s,0,sc,sdp,sd,r,0,rc,rdp,rd,c); }
// nonblocking collectives
static Req* collreq(const char*fn,CommH*h){ Req*r=new_req(h,Req::COLL,fn); return r; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request*q){ ENTER; auto h=C("MPI_Ibarrier",c); auto e=enter("MPI_Ibarrier",h,0,nullptr,0); int n=h->core->n; Req*r=collreq("MPI_Ibarrier",h); r->ready=[e,n]{ return e->arrived>=n; }; r->finish=[h,e]{ leave(h,e); }; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Iallreduce(const void*s,void*rb,int cntn,MPI_Datatype d,MPI_Op op,MPI_Comm c,MPI_Request*q){ ENTER; auto h=C("MPI_Iallreduce",c); auto t=T("MPI_Iallreduce",d); auto e=enter("MPI_Iallreduce",h,0,opcode(op)<0?nullptr:(void*)op,sg(t,cntn)); e->data[h->rank]=pack(cproc,inpl(s,rb),cntn,t); int n=h->core->n; Req*r=collreq("MPI_Iallreduce",h); r->ready=[e,n]{ return e->arrived>=n; }; r->finish=[=]{ put("MPI_Iallreduce",rb,t,cntn,fold("MPI_Iallreduce",*e,op,d,t,cntn,n)); leave(h,e); }; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Ibcast(void*b,int cntn,MPI_Datatype d,int root,MPI_Comm c,MPI_Request*q){
  ENTER; auto h=C("MPI_Ibcast",c); auto t=T("MPI_Ibcast",d); croot("MPI_Ibcast",h,root); auto e=enter("MPI_Ibcast",h,root,nullptr,sg(t,cntn)); bool isr=h->rank==root;
  if(isr){ if(g_faults&&choose(NET,2,net.p_rndv,"rendezvous")){ count_fault("send without buffering"); Proc*p=cproc; e->late=[p,b,cntn,t]{ return pack(p,b,cntn,t); }; } else e->data[root]=pack(cproc,b,cntn,t); }
  auto*ep=e.get(); auto settle=[ep,root]{ if(ep->late){ ep->data[root]=ep->late(); ep->late=nullptr; } };
  Req*r=collreq("MPI_Ibcast",h); r->ready=[e,root]{ return e->here[root]!=0; }; r->finish=[=]{ settle(); if(!isr) put("MPI_Ibcast",b,t,cntn,e->data[root]); leave(h,e); }; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Ireduce(const void*s,void*rb,int cntn,MPI_Datatype d,MPI_Op op,int root,MPI_Comm c,MPI_Request*q){ ENTER; auto h=C("MPI_Ireduce",c); auto t=T("MPI_Ireduce",d); croot("MPI_Ireduce",h,root); auto e=enter("MPI_Ireduce",h,root,opcode(op)<0?nullptr:(void*)op,sg(t,cntn)); e->data[h->rank]=pack(cproc,inpl(s,rb),cntn,t); int n=h->core->n; bool isr=h->rank==root; Req*r=collreq("MPI_Ireduce",h); r->ready=[e,n,isr]{ return !isr||e->arrived>=n; }; r->finish=[=]{ if(isr) put("MPI_Ireduce",rb,t,cntn,fold("MPI_Ireduce",*e,op,d,t,cntn,n)); leave(h,e); }; *q=(MPI_Request)(void*)r; return 0; }
static int igather_(const char*fn,bool v,const void*s,int sn,MPI_Datatype sd,void*rb,int rn,const int*rc,const int*dp,MPI_Datatype rd,int root,MPI_Comm c,MPI_Request*q){
  auto h=C(fn,c); croot(fn,h,root); int n=h->core->n; bool isr=h->rank==root; TypeH*t=isr?T(fn,rd):nullptr; std::vector<int> k,o; if(isr) for(int i=0;i<n;i++){ k.push_back(v?rc[i]:rn); o.push_back(v?dp[i]:i*rn); }
  auto e=enter(fn,h,root,nullptr,0); e->data[h->rank]= s==MPI_IN_PLACE?std::string():pack(cproc,s,sn,T(fn,sd)); bool inp=s==MPI_IN_PLACE;
  Req*r=collreq(fn,h); r->ready=[e,n,isr]{ return !isr||e->arrived>=n; }; r->finish=[=]{ if(isr) for(int i=0;i<n;i++) if(!(inp&&i==root)) put(fn,(char*)rb+(ptrdiff_t)o[i]*t->extent,t,k[i],e->data[i]); leave(h,e); }; *q=(MPI_Request)(void*)r; return 0;
}
int MPI_Igather(const void*s,int sn,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c,MPI_Request*q){ ENTER; return igather_("MPI_Igather",false,s,sn,sd,r,rn,nullptr,nullptr,rd,root,c,q); }
int MPI_Igatherv(const void*s,int sn,MPI_Datatype sd,void*r,const int*rc,const int*dp,MPI_Datatype rd,int root,MPI_Comm c,MPI_Request*q){ ENTER; return igather_("MPI_Igatherv",true,s,sn,sd,r,0,rc,dp,rd,root,c,q); }
static int iscatter_(const char*fn,bool v,const void*s,int sn,const int*sc,const int*dp,MPI_Datatype sd,void*rb,int rn,MPI_Datatype rd,int root,MPI_Comm c,MPI_Request*q){
  auto h=C(fn,c); croot(fn,h,root); int n=h->core->n,me=h->rank; bool isr=me==root; auto e=enter(fn,h,root,nullptr,0);
  if(isr){ auto st=T(fn,sd); for(int i=0;i<n;i++){ int k=v?sc[i]:sn; std::string d=pack(cproc,(const char*)s+(ptrdiff_t)(v?dp[i]:i*sn)*st->extent,k,st); e->data[root]+=d; e->aux[root].push_back((int)d.size()); } }
  bool inp=rb==MPI_IN_PLACE; TypeH*t=inp?nullptr:T(fn,rd);
  Req*r=collreq(fn,h); r->ready=[e,root]{ return e->here[root]!=0; }; r->finish=[=]{ if(!inp){ size_t at=0; for(int i=0;i<me;i++) at+=e->aux[root][i]; put(fn,rb,t,rn,e->data[root].substr(at,e->aux[root][me])); } leave(h,e); }; *q=(MPI_Request)(void*)r; return 0;
}
int MPI_Iscatter(const void*s,int sn,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c,MPI_Request*q){ ENTER; return iscatter_("MPI_Iscatter",false,s,sn,nullptr,nullptr,sd,r,rn,rd,root,c,q); }
int MPI_Iscatterv(const void*s,const int*sc,const int*dp,MPI_Datatype sd,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c,MPI_Request*q){ ENTER; return iscatter_("MPI_Iscatterv",true,s,0,sc,dp,sd,r,rn,rd,root,c,q); }
// packing
int MPI_Pack_size(int n,MPI_Datatype d,MPI_Comm c,int*o){ ENTER; C("MPI_Pack_size",c); cnt("MPI_Pack_size",n); *o=(int)(T("MPI_Pack_size",d)->size*n); return 0; }
int MPI_Pack(const void*in,int n,MPI_Datatype d,void*out,int room,int*pos,MPI_Comm c){ ENTER; C("MPI_Pack",c); cnt("MPI_Pack",n); std::string s=pack(cproc,in,n,T("MPI_Pack",d)); if(*pos<0||*pos+(long)s.size()>room) usage("MPI_Pack","%zu bytes at %d do not fit in %d",s.size(),*pos,room); memcpy((char*)out+*pos,s.data(),s.size()); *pos+=(int)s.size(); return 0; }
int MPI_Unpack(const void*in,int have,int*pos,void*out,int n,MPI_Datatype d,MPI_Comm c){ ENTER; C("MPI_Unpack",c); cnt("MPI_Unpack",n); auto t=T("MPI_Unpack",d); size_t k=t->size*(size_t)n; if(*pos<0||*pos+(long)k>have) usage("MPI_Unpack","%zu bytes at %d do not lie within %d",k,*pos,have); std::string s((const char*)in+*pos,k); unpack(cproc,out,t,s.data(),k); *pos+=(int)k; return 0; }
// buffered sends: complete at once, the message itself may still be late
int MPI_Buffer_attach(void*,int){ ENTER; return 0; }
int MPI_Buffer_detach(void*b,int*n){ ENTER; *(void**)b=nullptr; *n=0; return 0; }
int MPI_Bsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ ENTER; yield("MPI_Bsend"); Req*r=mk("MPI_Bsend",c,Req::SEND,(void*)b,n,d,dst,tag,false); r->buffered=true; start_send(r); finish_blocking("MPI_Bsend",r,MPI_STATUS_IGNORE); return 0; }
int MPI_Ibsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ ENTER; yield("MPI_Ibsend"); Req*r=mk("MPI_Ibsend",c,Req::SEND,(void*)b,n,d,dst,tag,false); r->buffered=true; start_send(r); *q=(MPI_Request)(void*)r; return 0; }
int MPI_Irsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ return MPI_Isend(b,n,d,dst,tag,c,q); }
int MPI_Ssend_init(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ ENTER; Req*r=mk("MPI_Ssend_init",c,Req::SEND,(void*)b,n,d,dst,tag,true); r->persistent=true; r->active=false; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Request_get_status(MPI_Request q,int*f,MPI_Status*st){ ENTER; yield("MPI_Request_get_status"); if(q==MPI_REQUEST_NULL){ *f=1; set_status(st,MPI_ANY_SOURCE,MPI_ANY_TAG,0); return 0; } Req*r=R("MPI_Request_get_status",q); *f=req_done(r); if(*f){ g_progress++; if(r->kind==Req::RECV) set_status(st,r->st_src,r->st_tag,r->st_bytes); } else poll_failed("MPI_Request_get_status"); return 0; }
int MPI_Mprobe(int src,int tag,MPI_Comm c,MPI_Message*mm,MPI_Status*st){ MPI_Status s; MPI_Probe(src,tag,c,&s); ENTER; auto h=C("MPI_Mprobe",c); Core*k=h->core; auto&q=k->q[h->rank]; for(size_t i=0;i<q.size();i++) if(q[i]->src==s.MPI_SOURCE&&q[i]->tag==s.MPI_TAG){ Msg*m=q[i]; q.erase(q.begin()+i); taken[m]=h; *mm=(MPI_Message)(void*)m; if(st&&st!=MPI_STATUS_IGNORE) *st=s; return 0; } infra("MPI_Mprobe lost its message"); }
int MPI_Improbe(int src,int tag,MPI_Comm c,int*f,MPI_Message*mm,MPI_Status*st){ MPI_Status s; MPI_Iprobe(src,tag,c,f,&s); if(!*f) return 0; return MPI_Mprobe(s.MPI_SOURCE,s.MPI_TAG,c,mm,st); }
int MPI_Mrecv(void*b,int n,MPI_Datatype d,MPI_Message*mm,MPI_Status*st){ ENTER; yield("MPI_Mrecv"); Msg*m=(Msg*)(void*)*mm; auto it=taken.find(m); if(it==taken.end()) usage("MPI_Mrecv","not a matched message"); auto h=it->second; taken.erase(it); *mm=MPI_MESSAGE_NULL; Req*r=new_req(h,Req::RECV,"MPI_Mrecv"); r->buf=b; r->count=n; r->type=T("MPI_Mrecv",d); r->peer=m->src; r->tag=m->tag; r->active=true; complete(r,m); MPI_Request q=(MPI_Request)(void*)r; reap(&q,st); return 0; }
int MPI_Type_create_hvector(int n,int bl,MPI_Aint st,MPI_Datatype d,MPI_Datatype*o){ ENTER; auto t=T("MPI_Type_create_hvector",d); auto*x=new TypeH; x->cls=t->cls; x->elem=t->elem; for(int i=0;i<n;i++) for(int j=0;j<bl;j++) place(x,t,(ptrdiff_t)i*st+j*t->extent); bounds(x); *o=regt(x); return 0; }
int MPI_Type_create_hindexed(int n,const int*bl,const MPI_Aint*dp,MPI_Datatype d,MPI_Datatype*o){ ENTER; std::vector<MPI_Datatype> ds(n,d); return MPI_Type_create_struct(n,bl,dp,ds.data(),o); }
int MPI_Is_thread_main(int*f){ ENTER; *f=1; return 0; }
int MPI_Comm_set_info(MPI_Comm c,MPI_Info){ ENTER; C("MPI_Comm_set_info",c); return 0; }
int MPI_Comm_remote_size(MPI_Comm c,int*){ ENTER; C("MPI_Comm_remote_size",c); usage("MPI_Comm_remote_size","not an intercommunicator"); }
int MPI_Op_commutative(MPI_Op o,int*f){ ENTER; *f=opcode(o)>=0?1:((OpH*)(void*)o)->commute; return 0; }
int MPI_Iallgather(const void*s,int sn,MPI_Datatype sd,void*rb,int rn,MPI_Datatype rd,MPI_Comm c,MPI_Request*q){ ENTER; auto h=C("MPI_Iallgather",c); auto t=T("MPI_Iallgather",rd); auto e=enter("MPI_Iallgather",h,0,nullptr,0); e->data[h->rank]= s==MPI_IN_PLACE?pack(cproc,(char*)rb+(ptrdiff_t)h->rank*rn*t->extent,rn,t):pack(cproc,s,sn,T("MPI_Iallgather",sd)); int n=h->core->n; Req*r=collreq("MPI_Iallgather",h); r->ready=[e,n]{ return e->arrived>=n; }; r->finish=[=]{ for(int i=0;i<n;i++) put("MPI_Iallgather",(char*)rb+(ptrdiff_t)i*rn*t->extent,t,rn,e->data[i]); leave(h,e); }; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Iallgatherv(const void*s,int sn,MPI_Datatype sd,void*rb,const int*rc,const int*dp,MPI_Datatype rd,MPI_Comm c,MPI_Request*q){ ENTER; auto h=C("MPI_Iallgatherv",c); auto t=T("MPI_Iallgatherv",rd); int n=h->core->n; std::vector<int> k(rc,rc+n),o(dp,dp+n); auto e=enter("MPI_Iallgatherv",h,0,nullptr,0); e->data[h->rank]= s==MPI_IN_PLACE?pack(cproc,(char*)rb+(ptrdiff_t)o[h->rank]*t->extent,k[h->rank],t):pack(cproc,s,sn,T("MPI_Iallgatherv",sd)); Req*r=collreq("MPI_Iallgatherv",h); r->ready=[e,n]{ return e->arrived>=n; }; r->finish=[=]{ for(int i=0;i<n;i++) put("MPI_Iallgatherv",(char*)rb+(ptrdiff_t)o[i]*t->extent,t,k[i],e->data[i]); leave(h,e); }; *q=(MPI_Request)(void*)r; return 0; }
int MPI_Type_c2f_dummy_(void){ return 0; }
} // extern "C"
