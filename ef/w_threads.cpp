// C11: one application instance for all threads. Built with preemption points at memory accesses.
#include "common.h"
#include <mutex>
#include <thread>
using namespace sim;
// ------------------------------------------------------------------ the singleton base, with an observable class
template <int K> struct Probe : EF::GenericSingleton<Probe<K>> {
  static int made, failing, pauses; static bool by_alloc; static std::vector<Probe*> objs; std::vector<int> payload; volatile long magic[4] = {0, 0, 0, 0};
  Probe() {
    magic[0] = 0x51; for (int i = 0; i < pauses; i++) yield_point("constructing"); if (failing > 0) { failing--; throw CallbackFailed(); }
    for (int i = 0; i < 8; i++) { payload.push_back(i); } magic[1] = 0x52; for (int i = 0; i < pauses; i++) yield_point("constructing"); magic[2] = 0x53; made++; magic[3] = 0x54;
  }
  bool whole() const { if (magic[0] != 0x51 || magic[1] != 0x52 || magic[2] != 0x53 || magic[3] != 0x54 || payload.size() != 8) return false; return true; }
};
template <int K> int Probe<K>::made = 0; template <int K> int Probe<K>::failing = 0; template <int K> int Probe<K>::pauses = 0;
struct Call { uint64_t from, to; void* got; bool threw; int thread; };
template <int K> static void race(int me, int nt, int rounds, int failing, int pauses, const std::vector<int>& delay, const char* which) {
  typedef Probe<K> P; P::made = 0; P::failing = failing; P::pauses = pauses; std::vector<Call> calls; 
  auto one = [&](int t) {
    for (int i = 0; i < rounds; i++) {
      for (int d = 0; d < delay[(t * 3 + i) % delay.size()]; d++) yield_point("before asking");
      void* p = nullptr; bool threw = false; try { set_preempt(true); P& x = P::getInstance(); set_preempt(false); p = &x; set_preempt(true); bool w = x.whole(); set_preempt(false); if (!w) fail("torn-instance", "rank %d: thread %d got a %s instance that is not fully constructed", me, t, which); } catch (CallbackFailed&) { threw = true; }
      Quiet q; calls.push_back({0, 0, p, threw, t});
    }
  };
  set_preempt(true); run_threads(nt, one); set_preempt(false); Quiet q; int threw = 0; void* first = nullptr; for (auto& c : calls) if (c.threw) threw++; else { if (!first) first = c.got; if (c.got != first) fail("two-instances", "rank %d: threads of one process got different instances of %s", me, which); }
  if (threw != std::min(failing, nt * rounds)) fail("wrong-failures", "rank %d: %d of %d failing creations reached a caller", me, threw, failing);
  if (first && P::made != 1) fail("two-instances", "rank %d: %d instances of %s were created", me, P::made, which); if (!first && failing < nt * rounds) fail("no-instance", "rank %d: no thread got an instance of %s", me, which); note("races"); if (threw) note("races with failing creation");
}
extern "C" void workload_threads(const char*) {
  int n = 1 + gen(2, "ranks"), nt = 2 + gen(5, "threads"), rounds = 1 + gen(3, "rounds"), failing = gen(3, "fails") == 2 ? 1 + gen(4, "failures") : 0, pauses = gen(4, "pauses"), two = gen(2, "two classes"); std::vector<int> delay; for (int i = 0; i < 6; i++) delay.push_back(gen(5, "delay") * gen(3, "more"));
  std::string d; for (int v : delay) d += strf(" %d", v); label(strf("%d ranks, %d threads asking %d times, first %d creations fail, %d pauses%s, delays%s", n, nt, rounds, failing, pauses, two ? ", two classes" : "", d.c_str()));
  launch(n, [&](int me) { race<0>(me, nt, rounds, failing, pauses, delay, "class one"); if (two) race<1>(me, nt, rounds, 0, pauses, delay, "class two"); });
}
// ------------------------------------------------------------------ the application itself
extern "C" void workload_app_threads(const char*) {
  int n = 1 + gen(3, "ranks"), nt = 1 + gen(5, "threads"), rounds = 1 + gen(4, "rounds"), mode = gen(4, "application object"), use = gen(2, "use it"); long af = gen(3, "memory") == 2 ? 1 + gen(6, "allocation") : 0; if (mode == 1 || (mode && n > 1)) af = 0; std::vector<int> delay; for (int i = 0; i < 7; i++) delay.push_back(gen(6, "delay") * gen(3, "more"));
  static const char* mn[4] = {"none", "before the threads", "by a thread, meanwhile", "two, one after the other"}; std::string d; for (int v : delay) d += strf(" %d", v); label(strf("%d ranks, %d threads asking %d times, application object: %s%s%s, delays%s", n, nt, rounds, mn[mode], af ? strf(", allocation %ld fails", af).c_str() : "", use ? ", used" : "", d.c_str()));
  launch(n, [&](int me) {
    int argc = 1; char a0[] = "prog"; char* av[2] = {a0, nullptr}; char** argv = av; std::vector<EF::EllipticForestApp*> apps; std::vector<std::pair<uint64_t, uint64_t>> when; uint64_t tick = 0; auto tock = [&] { Quiet q; return ++tick; }; std::vector<Call> calls; account(true); int64_t blocks0 = live().blocks;
    auto construct = [&] { uint64_t a = tock(); auto* p = new EF::EllipticForestApp(&argc, &argv); set_preempt(false); { Quiet q; apps.push_back(p); when.push_back({a, tock()}); } set_preempt(true); };
    if (mode == 1) { construct(); set_preempt(false); }
    auto ask = [&](int t) { for (int i = 0; i < rounds; i++) { for (int k = 0; k < delay[(t * 3 + i) % delay.size()]; k++) yield_point("before asking"); uint64_t a = tock(); void* p = nullptr; bool threw = false; if (af && t == 0 && i == 0) alloc_fail_in(af); try { set_preempt(true); p = &EF::EllipticForestApp::getInstance(); set_preempt(false); } catch (std::bad_alloc&) { set_preempt(false); threw = true; } Quiet q; calls.push_back({a, tock(), p, threw, t}); } };
    bool maker = mode >= 2; run_threads(nt + (maker ? 1 : 0), [&](int t) { if (maker && t == nt) { for (int c = 0; c < (mode == 3 ? 2 : 1); c++) { for (int k = 0; k < delay[c] * 3; k++) yield_point("before constructing"); try { set_preempt(true); construct(); set_preempt(false); } catch (std::bad_alloc&) { set_preempt(false); } } } else ask(t); });
    bool fired = alloc_fired(); alloc_fail_in(0); if (fired) note("allocation failures"); uint64_t a = tock(); void* last = &EF::EllipticForestApp::getInstance(); { Quiet q; calls.push_back({a, tock(), last, false, -1}); }
    { Quiet q; void* other = nullptr; int threw = 0;
      for (auto& c : calls) { if (c.threw) { threw++; continue; } bool ok = false, is_app = false; int newest = -1; for (size_t k = 0; k < apps.size(); k++) { if (when[k].second < c.from) newest = (int)k; if (c.got == apps[k]) { is_app = true; } }
        if (is_app) { for (size_t k = 0; k < apps.size(); k++) if (c.got == apps[k] && (int)k >= newest && when[k].first < c.to) ok = true; if (!ok) fail("wrong-instance", "rank %d: thread %d got an application object that was not the newest one then", me, c.thread); }
        else { if (newest >= 0) fail("wrong-instance", "rank %d: thread %d asked after the program had constructed its application object and got another instance", me, c.thread); if (!other) other = c.got; if (c.got != other) fail("two-instances", "rank %d: threads of one process got different application instances", me); } }
      if (threw > (fired ? 1 : 0)) fail("wrong-failures", "rank %d: %d callers met a failing creation, expected at most one", me, threw); note("application races"); if (other) note("default instances"); }
    if (use) { auto& x = EF::EllipticForestApp::getInstance(); x.options.setOption("seen", 5); x.addTimer("t"); auto& y = EF::EllipticForestApp::getInstance(); if (!y.options.optionExists("seen") || !y.timers.count("t")) fail("wrong-instance", "rank %d: what was stored in the instance is gone", me); }
    if (mode == 0) { int64_t grown = live().blocks - blocks0; if (!use && !calls.empty() && grown > 40) fail("two-instances", "rank %d: asking for the instance left %lld blocks of memory", me, (long long)grown); }
    account(false); if (mode) { void* l = apps.empty() ? nullptr : apps.back(); if (l && last != l) fail("wrong-instance", "rank %d: the last application object is not the instance", me); for (size_t k = 0; k + 1 < apps.size(); k++) ; if (!apps.empty()) delete apps.back(); else { int in; MPI_Initialized(&in); if (!in) MPI_Init(&argc, &argv); MPI_Finalize(); } }
  });
}
