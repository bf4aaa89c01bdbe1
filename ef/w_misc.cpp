// C10: timers; C13: option files.
#include "common.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>
using namespace sim;
// ------------------------------------------------------------------ C10
// plain timers against a model over the simulated monotonic clock
extern "C" void workload_timers(const char*) {
  clock_ticks(false);   // the model sees every step of the clock
  struct Op { int kind, timer; int64_t ns; };
  int n = 1 + gen(3, "ranks"), nt = 1 + gen(4, "timers"), app_timers = gen(2, "in the application"), count = 3 + gen(40, "operations"); std::vector<std::vector<Op>> ops(n); static const char* names[5] = {"t0", "t one", "build-stage", "app", "x"};
  static const int64_t spans[8] = {1, 1000, 999999, 50000000, 1000000000, 3600000000000LL, 86400000000000LL * 3, 86400000000000LL * 400};
  for (int r = 0; r < n; r++) for (int i = 0; i < count; i++) { Op o; o.kind = gen(9, "operation"); o.timer = gen(nt, "timer"); o.ns = spans[gen(8, "span")] + gen(1000, "odd nanoseconds"); ops[r].push_back(o); }
  label(strf("%d ranks, %d timers%s, %d operations", n, nt, app_timers ? " of the application" : "", count));
  launch(n, [&](int me) {
    Rank r; r.start(); std::vector<EF::Timer> own(nt); std::vector<long double> total(nt, 0), began(nt, 0); std::vector<char> running(nt, 0);
    if (app_timers) for (int k = 0; k < nt; k++) r.app->addTimer(names[k]);
    auto T = [&](int k) -> EF::Timer& { return app_timers ? r.app->timers[names[k]] : own[k]; };
    auto near = [](long double a, long double b) { return std::fabs((double)(a - b)) <= 1e-12 * (double)(std::fabs((double)a) + std::fabs((double)b)) + 1e-12; };
    auto check = [&](int k, const char* when) { double t = T(k).time(); if (!near(t, total[k])) fail("wrong-time", "rank %d: %s, timer %d holds %.12g s, expected %.12Lg s", me, when, k, t, total[k]); };
    for (auto& o : ops[me]) { int k = o.timer; switch (o.kind) {
      case 0: case 5: if (!running[k]) { T(k).start(); began[k] = now_ns(); running[k] = 1; check(k, "after a start"); break; } // fall through: a running timer is stopped
      case 1: if (running[k]) { double d = T(k).stop(); long double e = ((long double)now_ns() - began[k]) * 1e-9L; running[k] = 0; total[k] += e; if (!near(d, e)) fail("wrong-time", "rank %d: stop returned %.12g s, expected %.12Lg s", me, d, e); check(k, "after a stop"); note("intervals"); } break;
      case 2: advance_ns(o.ns); break;
      case 3: { int64_t j = (o.ns & 1) ? -o.ns : o.ns; wall_jump(j); break; }
      case 4: sleep_ns(o.ns % 5000000000LL); break;
      case 6: T(k).restart(); total[k] = 0; check(k, "after a restart"); break;
      case 7: for (int q = 0; q < nt; q++) check(q, "when read"); break;
      case 8: if (app_timers && !running[k]) { r.app->addTimer(names[k]); total[k] = 0; check(k, "after being added again"); } else { MPI_Barrier(MPI_COMM_WORLD == MPI_COMM_NULL ? MPI_COMM_SELF : MPI_COMM_SELF); } break;
    } }
    for (int q = 0; q < nt; q++) check(q, "at the end");
    if (me == 0 && ops[me][0].ns & 4) { int64_t a = now_ns(); r.app->sleep(2); if (now_ns() - a < 2000000000LL) fail("wrong-time", "sleep(2) took %.9f s", (now_ns() - a) * 1e-9); }
  });
}
// the stage timers, with callbacks that take time
extern "C" void workload_stage_timers(const char*) {
  clock_ticks(false);
  Problem p; p.mesh = gen_mesh(10, false); p.data.kind = 1; p.coef = Coef{}; p.fish = 0; int n = gen_ranks((int)reference_leaves(p.mesh).size(), 4), count = 2 + gen(5, "stages"), mine = gen(2, "another timer");
  struct S { int kind, overload, jump; int64_t slow; bool once; }; std::vector<S> st; static const int64_t spans[6] = {0, 1000, 3000000, 70000000, 2000000000, 5000000000LL}; bool built = false, up = false;
  for (int i = 0; i < count; i++) { S s; s.kind = !built ? 0 : !up ? 1 : gen(4, "stage"); if (s.kind == 0) { built = true; up = false; } if (s.kind == 1) up = true; s.overload = gen(2, "overload"); s.slow = spans[gen(6, "callback time")]; s.once = gen(2, "slow once") == 1; s.jump = gen(3, "wall clock step"); st.push_back(s); }
  std::string t; for (auto& s : st) t += strf(" %s%s(%.3g s%s%s)", s.kind == 0 ? "build" : s.kind == 1 ? "upwards" : s.kind == 2 ? "solve" : "setup", s.overload ? "P" : "", s.slow * 1e-9, s.once ? " once" : "", s.jump ? s.jump == 1 ? ", clock set back" : ", clock set forward" : ""); label(strf("%d ranks; ", n) + text(p) + ";" + t);
  launch(n, [&](int me) {
    Rank r; r.start(); r.options(false, false); r.make_mesh(p.mesh); r.make_solver(p); EF::Timer other; int64_t other_from = now_ns(); if (mine) { r.app->addTimer("mine"); r.app->timers["mine"].start(); } other.start();
    static const char* nm[4] = {"build-stage", "upwards-stage", "solve-stage", "setup-stage"}; std::map<std::string, double> last; int64_t life = now_ns();
    for (size_t i = 0; i < st.size(); i++) {
      S s = st[i]; int64_t first = -1, end = -1; long seen = 0;
      auto busy = [&] { Quiet q; if (first < 0) first = now_ns(); if (!s.once || !seen++) advance_ns(s.once ? s.slow : s.slow / 16); if (s.jump && (seen <= 1 || s.once)) { wall_jump(s.jump == 1 ? -3700000000000LL : 7300000000000LL); s.jump = 0; } end = now_ns(); };
      Problem q = p; r.solver->lambda_function = [&](double x, double y) { busy(); return f_lambda(0, x, y); }; r.solver->alpha_function = [&](double x, double y) { return f_alpha(0, x, y); };
      int64_t t0 = now_ns();
      switch (s.kind) {
        case 0: r.hps->buildStage(); break;
        case 1: if (s.overload) r.hps->upwardsStage([&](Patch& patch) { busy(); auto& g = patch.grid(); EF::Vector<double> f(g.nx() * g.ny()); for (int k = 0; k < (int)(g.nx() * g.ny()); k++) f[k] = k; patch.vectorF() = f; }); else r.hps->upwardsStage([&](double x, double y) -> double { busy(); return x - y; }); break;
        case 2: if (s.overload) r.hps->solveStage([&](Patch& patch) { busy(); EF::Vector<double> v(4 * patch.grid().nx()); for (int k = 0; k < (int)v.size(); k++) v[k] = k; patch.vectorG() = v; }); else r.hps->solveStage([&](int, double x, double y, double* a, double* b) -> double { busy(); *a = 1; *b = 0; return x * y; }); break;
        case 3: r.hps->setupStage(); break;
      }
      int64_t t1 = now_ns(); Quiet quiet; if (!r.app->timers.count(nm[s.kind])) fail("wrong-time", "rank %d: the timer %s does not exist after its stage", me, nm[s.kind]);
      double got = r.app->timers[nm[s.kind]].time(), lo = first < 0 ? 0 : (end - first) * 1e-9, hi = (t1 - t0) * 1e-9; if (!(got >= lo - 1e-9 && got <= hi + 1e-9)) fail("wrong-time", "rank %d: the timer %s holds %.9g s; its callbacks took %.9g s and the whole call %.9g s", me, nm[s.kind], got, lo, hi);
      last[nm[s.kind]] = got; for (auto& kv : last) if (r.app->timers[kv.first].time() != kv.second) fail("wrong-time", "rank %d: the timer %s changed from %.9g to %.9g s in another stage", me, kv.first.c_str(), kv.second, r.app->timers[kv.first].time()); note("stages timed"); if (lo > 0) note("stages with slow callbacks");
    }
    double o = other.stop(), oe = (now_ns() - other_from) * 1e-9; if (std::fabs(o - oe) > 1e-6 + 1e-9 * oe) fail("wrong-time", "rank %d: a timer of the program holds %.9g s, expected %.9g s", me, o, oe);
    if (mine) { double m = r.app->timers["mine"].stop(); if (std::fabs(m - oe) > 1e-6 + 1e-9 * oe) fail("wrong-time", "rank %d: a timer the program added holds %.9g s, expected %.9g s", me, m, oe); } (void)life;
  });
}
// ------------------------------------------------------------------ C13
typedef std::map<std::string, EF::Options::OptionTypes> OptMap;
static std::string show(const EF::Options::OptionTypes& v) { switch (v.index()) { case 0: return "text '" + std::get<std::string>(v) + "'"; case 1: return std::get<bool>(v) ? "true" : "false"; case 2: return strf("integer %d", std::get<int>(v)); default: return strf("number %.17g", std::get<double>(v)); } }
static bool is_number(const std::string& t) { const char* p = t.c_str(); auto digits = [&] { int n = 0; while (*p >= '0' && *p <= '9') p++, n++; return n; }; if (*p == '+' || *p == '-') p++; int n = digits(); if (*p == '.') p++, n += digits(); if (!n) return false; if (*p == 'e' || *p == 'E') { p++; if (*p == '+' || *p == '-') p++; if (!digits()) return false; } return p == t.c_str() + t.size(); }
static std::string gen_value(EF::Options::OptionTypes& v) {
  static const char* ints[10] = {"0", "1", "42", "-7", "2147483647", "-2147483648", "007", "123456789", "-0", "+12"}; static const char* dbl[14] = {"1.5", "-0.25", "1e-5", "3.", ".5", "-2.5E+10", "6.02214076e23", "1e300", "-1e-300", "0.1", "1E3", "-.75", "12345.678901234567", "0.0"};
  static const char* txt[18] = {"fish", "FISHPACK90", "hello world", "v1.2.3", "a=b=c", "./out/mesh.vtu", "-", "e5", "1e", "1.2.3", "truer", "x;y", "[odd", "12 monkeys", "1,5", "3.5 m", ".", "two  spaces\tand a tab"};
  if (gen(4, "any text") == 3) { // anything printable that neither begins nor ends with a blank
    static const char any[] = " \t;#=[]\"'\\:,./()*%$&!?~^|<>{}@`+-_0123456789.eEtrufalsXYZ qwd"; int len = 1 + gen(gen(3, "longer") == 2 ? 40 : 5, "length"); std::string t; for (int i = 0; i < len; i++) { char c = any[gen(sizeof any - 1, "character")]; if ((i == 0 || i + 1 == len) && (c == ' ' || c == '\t')) c = ';'; t += c; }
    if (gen(3, "beginning") == 2) { static const char* b[6] = {"true", "false", "1", "-2.5", "1e3", ""}; t = b[gen(6, "begins")] + std::string(gen(2, "blank") ? " " : "") + t; while (t[0] == ' ') t.erase(0, 1); }
    if (t == "true" || t == "false" || is_number(t)) t = "x" + t; v = t; return t;
  }
  if (gen(40, "nothing") == 39) { v = std::string(); return ""; }
  if (gen(8, "any number") == 7) { double d = std::ldexp((double)(gen(1 << 30, "digits") - (1 << 29)), gen(200, "exponent") - 100); std::string t = strf(gen(2, "format") ? "%.17g" : "%.16e", d); if (t.find_first_of(".e") == std::string::npos) t += "."; v = strtod(t.c_str(), nullptr); return t; }
  if (gen(8, "any integer") == 7) { int k = (int)(((unsigned)gen(1 << 16, "high half") << 16) | (unsigned)gen(1 << 16, "low half")); v = k; return std::to_string(k); }
  switch (gen(5, "value kind")) { case 0: { int k = gen(2000, "small") - 1000; v = k; return std::to_string(k); } case 1: { bool b = gen(2, "bool"); v = b; return b ? "true" : "false"; } case 2: { const char* s = ints[gen(10, "integer")]; v = (int)strtol(s, nullptr, 10); return s; } case 3: { const char* s = dbl[gen(14, "number")]; v = strtod(s, nullptr); return s; } }
  if (gen(30, "long text") == 29) { std::string s(1 + gen(20000, "length"), 'q'); v = s; return s; }
  const char* s = txt[gen(18, "text")]; v = std::string(s); return s;
}
struct OptFile { std::string name, text; OptMap sets; };
static OptFile gen_options(int which) {
  OptFile f; static const char* keys[10] = {"nx", "min-level", "cache-operators", "homogeneous-rhs", "refinement-threshold", "output name", "x.y", "key", "Key", "k_9"}; bool crlf = gen(4, "CRLF") == 3; std::string nl = crlf ? "\r\n" : "\n"; int sections = 1 + gen(4, "sections"), pad = gen(3, "comments"); bool header = gen(6, "no header") != 5;
  f.name = strf("%s%d.ini", gen(2, "name") ? "o.p t" : "options", which);
  for (int s = 0; s < sections; s++) {
    int kind = s == 0 && header ? 0 : gen(4, "section"); static const char* sec[4] = {"EllipticForest", "Other", "ellipticforest", "EllipticForest "}; bool mine = kind == 0; if (!(s == 0 && !header)) f.text += std::string(gen(2, "indent") ? "  \t" : "") + "[" + (kind == 3 ? "EllipticForestX" : sec[kind]) + "]" + (gen(3, "trailing") == 2 ? " \t" : "") + nl; else mine = false;
    int lines = gen(2, "many") ? gen(400, "lines") : gen(6, "lines");
    for (int i = 0; i < lines; i++) {
      switch (gen(9, "line")) { case 7: f.text += nl; continue; case 8: f.text += pad ? strf("  ; comment %d = %d", i, i) + nl : "; nx = 99" + nl; continue; case 6: if (pad == 2) { f.text += "   \t " + nl; continue; } }
      std::string k = keys[gen(10, "key")]; if (gen(3, "numbered") == 2) k += std::to_string(gen(50, "number")); EF::Options::OptionTypes v; std::string t = gen_value(v); static const char* pre[3] = {"    ", "", "\t"}; static const char* eq[4] = {" = ", "=", "  =\t", "= "};
      f.text += pre[gen(3, "indent")] + k + eq[gen(4, "equals")] + t + (gen(4, "trailing") == 3 ? "  " : "") + nl; if (mine) f.sets[k] = v;
    }
    if (s + 1 == sections && gen(3, "no last line end") == 2) while (!f.text.empty() && (f.text.back() == '\n' || f.text.back() == '\r')) f.text.pop_back();
  }
  return f;
}
extern "C" void workload_options(const char*) {
  int n = 1 + gen(3, "ranks"), nf = 1 + gen(2, "files"); std::vector<OptFile> files; for (int i = 0; i < nf; i++) files.push_back(gen_options(i)); int fault = gen(7, "fault"), at = fault ? gen(100, "where it fails") : 0, how = gen(3, "errno"), prior = gen(4, "set before"), viaapp = gen(2, "application's options"), where = gen(3, "place");
  DiskPlan quiet; quiet.p_short = gen(2, "short reads") * 0.5; quiet.p_eintr = gen(2, "interrupted reads") * 0.3; size_t total = 0; for (auto& f : files) total += f.text.size(); DiskPlan plan = quiet; static const int oe[3] = {EACCES, EMFILE, ENOENT}; static const char* fn[6] = {"no fault", "no fault", "open fails", "read error", "no such file", "a directory in its place"};
  if (fault == 2) { plan.open_fail = 1 + at % (n * nf); plan.open_errno = oe[how]; } if (fault == 3) { plan.read_budget = (long)(total * n) * at / 100; plan.read_errno = how ? EIO : ESTALE; }
  std::string dir = scratch(); if (where == 1) { dir += "/in put"; mkdir(dir.c_str(), 0777); } std::vector<std::string> paths; for (auto& f : files) { std::string p = dir + "/" + f.name; { std::ofstream o(p, std::ios::binary); o << f.text; if (!o.flush()) infra("writing %s", p.c_str()); } paths.push_back(p); } if (chdir(dir.c_str())) infra("chdir");
  std::string missing = dir + "/missing.ini", direc = dir + "/directory.ini"; if (fault == 5) mkdir(direc.c_str(), 0777); std::string other = dir + "/options.conf"; if (fault == 6) { std::ofstream o(other); o << files[0].text; }
  label(strf("%d ranks, %d files of %zu bytes setting %zu and %zu keys, %s at %d%s%s%s", n, nf, total, files[0].sets.size(), files.back().sets.size(), fn[fault], at, viaapp ? ", application's options" : "", quiet.p_short > 0 ? ", short reads" : "", quiet.p_eintr > 0 ? ", interrupted reads" : ""));
  set_disk(plan); std::vector<char> threw(n, 0); std::vector<std::string> why(n);
  launch(n, [&](int me) {
    Rank r; r.start(); EF::Options mine; EF::Options& o = viaapp ? r.app->options : mine; OptMap want; { Quiet q; want = o.optionsMap; }
    auto put = [&](const char* k, EF::Options::OptionTypes v) { o.setOption(k, v); want[k] = v; }; if (prior > 0) put("untouched", 17); if (prior > 1) put("nx", std::string("old text")); if (prior > 2) { put("key", true); put("another one", 2.5); }
    auto check = [&](const char* when) { Quiet q; for (auto& kv : want) { if (!o.optionExists(kv.first)) fail("wrong-option", "rank %d: %s, option '%s' does not exist; the file says %s", me, when, kv.first.c_str(), show(kv.second).substr(0, 80).c_str()); auto& g = o[kv.first]; if (g != kv.second || g.index() != kv.second.index()) fail("wrong-option", "rank %d: %s, option '%s' is %s, expected %s", me, when, kv.first.c_str(), show(g).substr(0, 80).c_str(), show(kv.second).substr(0, 80).c_str()); } for (auto& kv : o.optionsMap) if (!want.count(kv.first)) fail("wrong-option", "rank %d: %s, there is an option '%s' (%s) that nothing set", me, when, kv.first.c_str(), show(kv.second).substr(0, 80).c_str()); };
    auto read = [&](const std::string& p) { try { o.setFromFile(p); return true; } catch (std::exception& e) { threw[me] = 1; why[me] = e.what(); return false; } };
    auto apply = [&](const OptFile& f) { for (auto& kv : f.sets) want[kv.first] = kv.second; };
    bool good = true; for (int i = 0; i < nf && good; i++) { good = read(where == 2 ? files[i].name : paths[i]); if (good) { apply(files[i]); if (!(disk_fired().ranks >> me & 1)) check("after reading"); else fail("unreported-failure", "rank %d met %s and reading the options returned as if it had succeeded", me, fn[fault]); } else if (!(disk_fired().ranks >> me & 1)) fail("false-failure", "rank %d: reading options failed without cause: %s", me, why[me].c_str()); }
    if (good) note("files read"); else { note("failures reported"); for (int i = 0; i < nf; i++) for (auto& kv : files[i].sets) (void)kv; }
    if (good && fault >= 4) { if (read(fault == 4 ? missing : fault == 5 ? direc : other)) fail("unreported-failure", "rank %d: reading options from %s returned as if it had succeeded", me, fault == 4 ? "a file that does not exist" : fault == 5 ? "a directory" : "a file of another kind"); check("after a failed read"); note("failures reported"); }
    sync_all("read"); if (me == 0) set_disk(quiet); sync_all("disk mended");
    if (!good) { threw[me] = 0; for (int i = 0; i < nf; i++) { if (!read(paths[i])) fail("false-failure", "rank %d: reading options after an earlier failure failed: %s", me, why[me].c_str()); apply(files[i]); } check("after reading again"); }
    if (nf == 2) { Quiet q; EF::Options z; OptMap w; z.setFromFile(paths[1]); for (auto& kv : files[1].sets) w[kv.first] = kv.second; if (z.optionsMap.size() != w.size()) fail("wrong-option", "rank %d: reading a file again gave %zu options, expected %zu", me, z.optionsMap.size(), w.size()); }
  });
}
