// Interface between the simulator (main executable) and the code under test plus workloads
// (libef.so, whose writable globals are swapped per simulated process).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run comes from one of four recorded streams.
enum Stream { GEN = 0, SCHED = 1, NET = 2, OS = 3, NSTREAM = 4 };
// Workload choice in [0,n). 0 must always be the simplest value.
int gen(int n, const char* label);
// like gen, but draws 0 with probability 1-p (search mode)
int gen_rare(int n, double p, const char* label);
// a generic choice from another stream
int choose(Stream s, int n, double p_nonzero, const char* label);

// ---------------------------------------------------------------- verdicts
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void infra(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* key, double add = 1);   // reach counters ("this rare condition was hit")
void label(const std::string& s);             // human-readable description of the workload
void hash_state(uint64_t v);                  // folded into the run's event-log hash
void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3))); // a listed finding was observed

// ---------------------------------------------------------------- running jobs
struct Outcome {                 // of one simulated process
  bool finished = false;         // returned from its main
  bool threw = false;
  std::string what;              // exception text
  bool killed = false;
};
struct JobOpts {
  bool faults = true;            // schedule/network nondeterminism on
  std::vector<std::string> args; // argv[1..]
  bool allow_throw = false;      // an exception leaving main is not itself a violation
  bool check_leftover = true;
  bool check_finalized = false;
};
// Runs a job of n processes to completion. fn(rank) is the process's main.
std::vector<Outcome> launch(int n, const std::function<void(int)>& fn, const JobOpts& o = {});
int cur_rank();
int job_size();
// kill the whole job now (from inside a process): all processes stop where they are
[[noreturn]] void kill_job();
// rendezvous of all live processes of the job that uses no MPI (harness only)
void sync_all(const char* what);
// extra threads inside the current simulated process
void run_threads(int n, const std::function<void(int)>& fn);
void yield_point(const char* what);
void set_preempt(bool on);      // preempt at instrumented memory accesses in run_threads

// harness section: no faults, no accounting, no scheduling inside
struct Quiet { Quiet(); ~Quiet(); };

// ---------------------------------------------------------------- clock
int64_t now_ns();               // simulated monotonic time
void sleep_ns(int64_t ns);      // current fiber sleeps; others may run
void advance_ns(int64_t ns);    // time passes while this process computes
void wall_jump(int64_t ns);
void clock_ticks(bool on);      // whether time may pass between two looks at the clock (default: yes)

// ---------------------------------------------------------------- memory
void alloc_fail_in(long n);     // nth operator new from now in this process throws (0 = off)
long alloc_count();             // operator new calls by this process so far
bool alloc_fired();
void account(bool on);          // start attributing allocations to simulated processes
struct Live { int64_t bytes; int64_t blocks; int64_t comms; int64_t reqs; int64_t groups; int64_t types; };
Live live();                    // held by the current process
void set_fill(int pattern);     // what fresh memory contains
void set_heap_order(int k);     // 0: addresses as the allocator gives them; else shuffled, differently for each k

// ---------------------------------------------------------------- life cycle and standard output of a process
void capture_output(bool on);   // before launch: give every process a standard output of its own
std::string output();           // what the current process wrote to it so far
struct Life { bool mpi_on, mpi_ended, petsc_on, petsc_ended; int mpi_inits, mpi_ends, petsc_inits, petsc_ends; };
Life life();                    // of the current process

// ---------------------------------------------------------------- disk
struct DiskPlan {               // faults on paths below the scratch dir
  int open_fail = 0;            // k-th open for writing/reading fails (1-based; 0 = none)
  int open_errno = 0;
  long write_budget = -1;       // bytes until write error (-1 = unlimited)
  int write_errno = 0;
  long read_budget = -1;        // bytes until read error
  int read_errno = 0;
  int close_fail = 0;           // k-th close of a written file fails
  double p_short = 0, p_eintr = 0;
  long kill_after_writes = -1;  // kill the job at the k-th write
  std::string only_suffix;      // restrict to paths ending so
};
void set_disk(const DiskPlan& p);
struct DiskFired { int open_fail, write_err, read_err, close_fail, short_io, eintr, writes, reads, opens; uint64_t ranks;  uint64_t soft = 0; /* write errors met inside a C stream of a library that may ignore them */ };   // ranks: which processes met a failure
DiskFired disk_fired();
std::string scratch();          // directory for this run
}
