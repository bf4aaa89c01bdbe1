// internal to the simulator executable
#pragma once
#include "simapi.h"
#include <mpi.h>
#include <ucontext.h>
#include <deque>
#include <map>
#include <unordered_map>
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>

namespace sim {
struct Core; struct CommH; struct Req; struct Coll;

struct Proc {                       // a simulated process
  uint64_t serial = 0;              // which process of the run this is
  int rank = 0, size = 1;
  bool mpi_init = false, mpi_final = false, host = false;
  std::vector<std::vector<char>> image;   // libef / libsc / libp4est writable data
  CommH* world = nullptr; CommH* self = nullptr;
  Outcome out;
  int64_t bytes = 0, blocks = 0, comms = 0, reqs = 0, groups = 0, types = 0;
  long allocs = 0; long fail_at = 0; bool fail_fired = false;
  int fibers_live = 0;
  std::vector<std::string> args; std::vector<char*> argv; int argc = 0;
  uint64_t nops = 0; int64_t mono_off = 0, wall_skew = 0, cpu_ns = 0;   // its own clocks
  void* outf = nullptr; char* outp = nullptr; size_t outn = 0;    // its standard output, when captured
  bool petsc_on = false, petsc_ended = false, petsc_began_mpi = false; int petsc_inits = 0, petsc_ends = 0, mpi_inits = 0, mpi_ends = 0;
  char rnd[128]; void* rnd_data[8] = {}; bool rnd_set = false;   // the process's own rand()
};
struct Fiber {
  int id = 0; Proc* proc = nullptr;
  ucontext_t ctx; char* stack = nullptr;
  std::function<void()> body;
  bool done = false, started = false;
  std::function<bool()> pred; const char* what = "start"; // blocked until pred()
  int64_t wake = 0;                 // stalled or sleeping until
  uint64_t polled_at = ~0ull; int polls = 0; int64_t poll_time = 0; // polling fiber: progress counter at last fruitless poll
  void* eh[2] = {nullptr, nullptr};
  int insim = 0; int quiet = 0; int tid = 0;       // tid: 0 is the process's first thread
  std::vector<char> tls; void* once[2] = {nullptr, nullptr};
  uint64_t last_run = 0;
};
extern Fiber* cur; extern Proc* cproc;
bool capturing(); void out_raw(Proc*p,const void*b,size_t n);   // standard output of a process
void clock_tick();                  // a rank may have been held up between two looks at the clock
extern int64_t g_now; extern uint64_t g_progress, g_steps;
extern bool g_faults, g_threads_mode;
extern int g_insim_host;
struct InSim { InSim(){ int& d = cur ? cur->insim : g_insim_host; d++; } ~InSim(){ int& d = cur ? cur->insim : g_insim_host; d--; } };
inline bool in_sim(){ return (cur ? cur->insim : g_insim_host) > 0; }

void block(const char* what, std::function<bool()> pred);
void yield(const char* what);
void poll_failed(const char* what);
void ev(uint64_t x);               // event-log hash
inline uint64_t mix(uint64_t x){ x ^= x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; x*=0xc4ceb9fe1a85ec53ULL; x^=x>>33; return x; }
inline uint64_t hstr(const char* s){ uint64_t h=1469598103934665603ull; for(;*s;s++){h^=(unsigned char)*s;h*=1099511628211ull;} return h; }

// per-run tuning of legal MPI nondeterminism
struct NetCfg { double p_tick=0, p_rndv=0, p_delay=0, p_stall=0, p_sync=0; int strategy=0; int slow=-1; };
extern NetCfg net;
void mpi_job_begin(std::vector<Proc*>& procs);
void mpi_job_end(std::vector<Proc*>& procs, bool check_leftover);
bool mpi_arrived_since(int64_t t);     // a message became available after t
int64_t mpi_next_event();          // earliest future message availability, INT64_MAX if none
std::string mpi_blocked_report();
void mpi_host_init();
void os_child_init();
void count_fault(const char* k, double n = 1);
std::string where_all();
}
