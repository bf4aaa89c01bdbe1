// C24: the application object's life: MPI and PETSc, options, log, summary.
#include "common.h"
#include <petscsys.h>
using namespace sim;
struct Opt { std::string arg, key; EF::Options::OptionTypes value; bool is_option; };
static Opt gen_opt(int i) {
  static const char* keys[6] = {"min-level", "cache-operators", "tolerance", "name", "k", "a.b"}; std::string key = strf("%s%s", keys[gen(6, "key")], gen(3, "own key") ? strf("%d", i).c_str() : "");
  switch (gen(8, "option")) {
    case 0: { int v = gen(2000, "int") - 1000; return {strf("--%s=%d", key.c_str(), v), key, v, true}; }
    case 1: { bool v = gen(2, "bool"); return {"--" + key + (v ? "=true" : "=false"), key, v, true}; }
    case 2: { int v = gen(4000, "double") - 2000; return {strf("--%s=%d.%d", key.c_str(), v, 5), key, v < 0 ? v - .5 : v + .5, true}; }
    case 3: { static const char* t[4] = {"text", "two words", "x=y", "3 rd"}; std::string v = t[gen(4, "text")]; return {"--" + key + "=" + v, key, v, true}; }
    case 4: return {"--" + key, key, std::string(), true};
    case 5: return {"-" + key, key, std::string(), true};
    case 6: { static const char* t[3] = {"1", "false", "some text"}; std::string v = t[gen(3, "text")]; return {"-" + key + "=" + v, key, v, true}; }
  }
  return {strf("file%d.ini", i), "", std::string(), false};
}
struct Act { int kind, a, b; std::string s; };   // 0 log, 1 logHead, 2 timer, 3 sleep, 4 time passes, 5 all-reduce, 6 timer while it runs, 7 the wall clock is set
static std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> v; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) { v.push_back(s.substr(p) + "\\(unfinished)"); break; } v.push_back(s.substr(p, q - p)); p = q + 1; } return v; }
extern "C" void workload_lifecycle(const char*) {
  int n = 1 + gen(7, "ranks"); if (gen(20, "many ranks") == 19) n += gen(8, "more ranks"); int starts = gen(4, "who starts"), ends = gen(2, "who ends"), second = gen(4, "second object") == 3, heap = gen(2, "on the heap"); std::vector<Opt> opts; int no = gen(6, "options"); for (int i = 0; i < no; i++) opts.push_back(gen_opt(i));
  std::vector<Act> acts; int na = gen(14, "actions"); std::string tn[4] = {"alpha", "beta stage", "g", "solve-stage"}; if (gen(4, "long timer name") == 3) tn[3] = std::string(12 + gen(300, "name length"), 'n') + tn[3];
  for (int i = 0; i < na; i++) { Act c; c.kind = gen(8, "action"); c.a = gen(1000, "a"); c.b = gen(7, "b"); c.s = strf("line %d of this run", i) + (c.b == 6 ? std::string(3000 * (1 + c.a % 4), 'x') : ""); acts.push_back(c); }
  static const char* sn[4] = {"the application", "the program (MPI_Init)", "the program (PetscInitialize)", "the program (MPI_Init_thread)"}; static const char* en[2] = {"the application", "the program"};
  std::string d; for (auto& o : opts) d += " " + o.arg; for (auto& c : acts) d += strf("; %d(%d,%d)", c.kind, c.a, c.b);
  label(strf("%d ranks, MPI started by %s, ended by %s%s, arguments%s", n, sn[starts], en[ends], second ? ", two application objects" : "", d.c_str()));
  JobOpts jo; for (auto& o : opts) jo.args.push_back(o.arg); jo.check_finalized = true; capture_output(true);
  launch(n, [&](int me) {
    std::vector<std::string> args{"prog"}; for (auto& o : opts) args.push_back(o.arg); std::vector<char*> av; for (auto& a : args) av.push_back(a.data()); av.push_back(nullptr); int argc = (int)args.size(); char** argv = av.data();
    if (starts == 1) MPI_Init(&argc, &argv); if (starts == 2) PetscInitialize(&argc, &argv, nullptr, nullptr); if (starts == 3) { int p; MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &p); }
    int64_t outer0 = now_ns(); alignas(EF::EllipticForestApp) unsigned char room[sizeof(EF::EllipticForestApp)]; EF::EllipticForestApp* app = heap ? new EF::EllipticForestApp(&argc, &argv) : new (room) EF::EllipticForestApp(&argc, &argv); int64_t inner0 = now_ns();
    auto l = life(); if (!l.mpi_on || l.mpi_ended) fail("not-running", "rank %d: MPI is not running after the application was constructed", me); if (!l.petsc_on) fail("not-running", "rank %d: PETSc is not running after the application was constructed", me); if (l.mpi_inits != 1 || l.petsc_inits != 1) fail("started-twice", "rank %d: MPI was started %d times, PETSc %d times", me, l.mpi_inits, l.petsc_inits);
    int r, s; MPI_Comm_rank(MPI_COMM_WORLD, &r); MPI_Comm_size(MPI_COMM_WORLD, &s); if (r != me || s != n) fail("not-running", "rank %d of %d is %d of %d", me, n, r, s);
    if (&EF::EllipticForestApp::getInstance() != app) fail("wrong-instance", "rank %d: the application object is not the instance", me);
    auto check_options = [&](EF::EllipticForestApp& a) { std::map<std::string, EF::Options::OptionTypes> want; for (auto& o : opts) if (o.is_option) want[o.key] = o.value;
      for (auto& w : want) { if (!a.options.optionExists(w.first)) fail("wrong-option", "rank %d: option %s given on the command line is missing", me, w.first.c_str()); if (a.options[w.first] != w.second) fail("wrong-option", "rank %d: option %s has another value than on the command line", me, w.first.c_str()); }
      for (auto& o : opts) if (!o.is_option && a.options.optionExists(o.arg)) fail("wrong-option", "rank %d: argument %s was taken for an option", me, o.arg.c_str()); };
    check_options(*app); EF::EllipticForestApp* app2 = nullptr; if (second) { app2 = new EF::EllipticForestApp(&argc, &argv); check_options(*app2); }
    std::vector<std::string> want; std::map<std::string, int64_t> total; size_t skip = lines_of(output()).size(); std::map<std::string, double> known_total;
    for (size_t i = 0; i < acts.size(); i++) { auto& c = acts[i]; std::string t = tn[c.b % 4];
      switch (c.kind) {
        case 0: if (c.b % 3 == 1) { app->log(c.s + " %d %s %.3f", c.a, t.c_str(), c.a / 8.0); want.push_back(strf("[EllipticForest %d] ", me) + c.s + strf(" %d %s %.3f", c.a, t.c_str(), c.a / 8.0)); } else { app->log(c.s); want.push_back(strf("[EllipticForest %d] ", me) + c.s); } break;
        case 1: if (c.b % 3 == 1) { app->logHead(c.s + " %d%%", c.a); if (!me) want.push_back("[EllipticForest 0] " + c.s + strf(" %d%%", c.a)); } else { app->logHead(c.s); if (!me) want.push_back("[EllipticForest 0] " + c.s); } break;
        case 2: case 6: { if (!total.count(t)) { app->addTimer(t); total[t] = 0; known_total[t] = 0; } app->timers[t].start(); advance_ns((int64_t)c.a * 1000003); if (c.kind == 6) yield_point("timing"); known_total[t] += app->timers[t].stop(); total[t] += (int64_t)c.a * 1000003; if (std::fabs(app->timers[t].time() - known_total[t]) > 1e-9 * (1 + known_total[t]) || app->timers[t].time() < total[t] * 1e-9 * (1 - 1e-12)) fail("wrong-total", "rank %d: timer %s holds %.9f s after intervals of %.9f s", me, t.c_str(), app->timers[t].time(), known_total[t]); break; }
        case 3: { int sec = c.b == 5 ? c.a * 40 : c.b; int64_t a = now_ns(); app->sleep(sec); if (now_ns() - a < (int64_t)sec * 1000000000) fail("short-sleep", "rank %d: a sleep of %d s took %.3f s", me, sec, (now_ns() - a) * 1e-9); break; }
        case 4: advance_ns((int64_t)c.a * 1000000 * (1 + c.b)); break;
        case 5: { int one = 1, sum = 0; MPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); if (sum != n) fail("not-running", "rank %d: a reduction over %d ranks gave %d", me, n, sum); break; }
        case 7: wall_jump((int64_t)(c.a - 500) * 3600000000000LL); break;
      } }
    auto got = lines_of(output()); got.erase(got.begin(), got.begin() + std::min(skip, got.size())); if (got.size() != want.size()) fail("wrong-log", "rank %d wrote %zu lines to its log, expected %zu%s%s", me, got.size(), want.size(), got.size() ? ", last: " : "", got.size() ? got.back().substr(0, 80).c_str() : ""); for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) fail("wrong-log", "rank %d: line %zu of the log is `%s', expected `%s'", me, i + 1, got[i].substr(0, 120).c_str(), want[i].substr(0, 120).c_str()); note("log lines", (double)got.size());
    if (ends == 1) { PetscFinalize(); int f; MPI_Finalized(&f); if (!f) MPI_Finalize(); }
    if (app2) { delete app2; }
    skip = lines_of(output()).size(); std::map<std::string, double> timers; for (auto& t : app->timers) timers[t.first] = t.second.time(); int64_t inner1 = now_ns(); if (heap) delete app; else app->~EllipticForestApp(); int64_t outer1 = now_ns();
    l = life(); if (!l.petsc_ended || l.petsc_on) fail("not-ended", "rank %d: PETSc is still running after the application has gone", me); if (!l.mpi_ended) fail("not-ended", "rank %d: MPI is still running after the application has gone", me); if (l.mpi_ends != 1 || l.petsc_ends != 1) fail("ended-twice", "rank %d: MPI was ended %d times, PETSc %d times", me, l.mpi_ends, l.petsc_ends); if (l.mpi_inits != 1 || l.petsc_inits != 1) fail("started-twice", "rank %d: MPI was started %d times, PETSc %d times", me, l.mpi_inits, l.petsc_inits);
    bool head_known = ends == 0 && !second;   // after MPI has ended no rank knows which one it is: every rank prints the summary
    auto tail = lines_of(output()); tail.erase(tail.begin(), tail.begin() + std::min(skip, tail.size()));
    if (me && head_known && !tail.empty()) fail("wrong-summary", "rank %d wrote `%s' at the end", me, tail[0].substr(0, 80).c_str());
    if (!me) for (auto& t : timers) { int found = 0; double v = -1; for (auto& x : tail) { size_t p = x.find(t.first + " : "); if (p == std::string::npos || (p && x[p - 1] != ' ')) continue; found++; v = atof(x.c_str() + p + t.first.size() + 3); }
      if (found != 1) fail("wrong-summary", "rank 0: the summary names timer %s %d times", t.first.c_str(), found);
      if (t.first == "app-lifetime") { double lo = (inner1 - inner0) * 1e-9, hi = (outer1 - outer0) * 1e-9; if (v < lo * (1 - 1e-5) - 1e-9 || v > hi * (1 + 1e-5) + 1e-9) fail("wrong-summary", "rank 0: the application lived for %.9f to %.9f s, the summary says %.9f", lo, hi, v); }
      else if (std::fabs(v - t.second) > 1e-5 * t.second + 1e-12) fail("wrong-summary", "rank 0: timer %s holds %.9f s, the summary says %.9f", t.first.c_str(), t.second, v); }
    note("lives"); if (starts) note("MPI started by the program"); if (ends) note("MPI ended by the program"); if (second) note("two application objects");
  }, jo);
}
