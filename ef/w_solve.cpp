// Workloads that solve problems: C01 C02 C03 C09 C12 C14 C17.
#include "history.h"
extern "C" void workload_solve(const char*) { // one problem, one pass
  Problem p = gen_problem(34, true); if (p.mesh.nx == 12 && !p.mesh.before && gen(2, "larger patches")) p.mesh.nx = 16; fix_bc(p, p.data); HistGen g(p);
  bool weighted = gen(4, "partition") == 3; int ws = gen(1000, "weights");
  g.build(); g.upwards(p.data); g.solve(p.data);
  auto leaves = reference_leaves(p.mesh); int n = gen_ranks((int)leaves.size(), 6);
  label(strf("%d ranks%s; ", n, weighted ? " weighted" : "") + text(p) + strf("; %zu leaves;", leaves.size()) + text(g.h, p.fish));
  std::vector<Solved> got; run_history(p, g.h, n, weighted, ws, got); check_history(p, g.h, got, leaves, n);
}

extern "C" void workload_history(const char*) { // any order of stages on one mesh
  Problem p = gen_problem(22, true); fix_bc(p, p.data); HistGen g(p); g.cache = g.may_cache && gen(3, "cache") == 2; p.cache = g.cache;
  int n = 2 + gen(7, "stages");
  Data d = g.data(true);
  for (int k = 0; k < n; k++) {
    switch (gen(9, "what next")) {
      case 0: case 1: d = g.data(true); g.ready(d); g.upwards(d); g.solve(d); break;
      case 2: { Data e = g.data(true); g.ready(d); g.solve(e); break; }            // other boundary data, same right-hand side
      case 3: g.ready(d); g.solve(d); if (gen(2, "twice")) g.solve(g.h.back().d); else { g.upwards(d); g.solve(d); } break;
      case 4: g.build(); g.ready(d); g.solve(d); break;                            // rebuild
      case 5: { g.h.push_back({Step::NEWHPS}); g.built = false; g.build(); d = g.data(true); g.fresh_rhs = false; g.ready(d); g.solve(d); break; }
      case 6: if (!p.fish) { Step s{Step::COEF}; s.coef = gen_coef(g.cache); g.now_coef = s.coef; g.h.push_back(s); g.built = g.built && false; g.fresh_rhs = false; g.build(); d = g.data(true); g.upwards(d); g.solve(d); } else { g.build(); g.ready(d); g.solve(d); } break;
      case 7: { if (!g.built) g.build(); g.upwards(g.data(true)); d = g.data(true); g.upwards(d); g.solve(d); break; }   // an upwards whose result is never used
      case 8: g.ready(d); if (gen(2, "setup")) g.h.push_back({Step::SETUP}); g.solve(d); break;
    }
  }
  auto leaves = reference_leaves(p.mesh); int nr = gen_ranks((int)leaves.size(), 4);
  label(strf("%d ranks; ", nr) + text(p) + strf("; %zu leaves;", leaves.size()) + text(g.h, p.fish));
  std::vector<Solved> got; run_history(p, g.h, nr, false, 0, got); note("stages", (double)g.h.size()); check_history(p, g.h, got, leaves, nr);
}

extern "C" void workload_boundary(const char*) { // C09
  Problem p = gen_problem(22, true); for (int s = 0; s < 4; s++) { p.data.bc[s] = gen(4, "side"); p.data.sc[s] = gen(5, "coefficients"); } if (p.data.kind == 4) p.data.kind = 1; fix_bc(p, p.data); HistGen g(p);
  g.build(); g.upwards(p.data); g.solve(p.data); int more = gen(3, "more"); for (int i = 0; i < more; i++) { Data d = p.data; for (int s = 0; s < 4; s++) { d.bc[s] = gen(4, "side"); d.sc[s] = gen(5, "coefficients"); } d.k = 1 + gen(4, "k"); if (d.kind == 0) d.k = p.data.k; fix_bc(p, d); g.solve(d); }
  bool both = gen(3, "direct") == 2; if (both) { Data d = p.data; for (int& b : d.bc) b = 0; for (int& b : d.sc) b = 0; g.solve(d); g.h.back().overload = 0; g.solve(d); g.h.back().overload = 1; }
  auto leaves = reference_leaves(p.mesh); int n = gen_ranks((int)leaves.size(), 4);
  label(strf("%d ranks; ", n) + text(p) + strf("; %zu leaves;", leaves.size()) + text(g.h, p.fish));
  std::vector<Solved> got; run_history(p, g.h, n, false, 0, got);
  for (size_t k = 0; k < got.size(); k++) {
    const Step& t = g.h[got[k].step]; int m = p.mesh.nx; if (p.mesh.minl != p.mesh.maxl) continue;  // on a uniform mesh the condition holds cell by cell
    double scale = t.d.scale + max_abs(got[k].f);
    for (auto& kv : got[k].f) { Box b = kv.second.box; double dx = (b.xu - b.xl) / m, dy = (b.yu - b.yl) / m; auto& l = kv.second; if ((int)l.g.size() != 4 * m) fail("wrong-answer", "leaf %s has %zu boundary values", kv.first.c_str(), l.g.size());
      for (int s = 0; s < 4; s++) { bool at = s == 0 ? b.xl == p.mesh.xl : s == 1 ? b.xu == p.mesh.xu : s == 2 ? b.yl == p.mesh.yl : b.yu == p.mesh.yu; if (!at) continue;
        for (int q = 0; q < m; q++) { int cell = s == 0 ? q : s == 1 ? q + (m - 1) * m : s == 2 ? q * m : (m - 1) + q * m; double u = l.u[cell], gv = l.g[s * m + q], h = s < 2 ? dx / 2 : dy / 2; double der = (s & 1) ? (gv - u) / h : (u - gv) / h;
          double x = s == 0 ? b.xl : s == 1 ? b.xu : b.xl + (q + 0.5) * dx, y = s == 2 ? b.yl : s == 3 ? b.yu : b.yl + (q + 0.5) * dy, a, bb; double r = bnd_of(p, t.d, s, x, y, &a, &bb); double res = a * gv + bb * der - r;
          if (!(std::fabs(res) <= 1e-8 * (scale + std::fabs(bb) * scale / h))) fail("boundary-condition", "leaf %s side %d cell %d: %g*u + %g*du = %.12g, prescribed %.12g", kv.first.c_str(), s, q, a, bb, res + r, r); note("boundary points checked"); } } }
  }
  check_history(p, g.h, got, leaves, n);
  if (both) { size_t k = got.size(); compare("Dirichlet data given directly on the root", got[k - 1].f, got[k - 2].f, 1e-9, "wrong-answer", p.data.scale); }
}

extern "C" void workload_modes(const char*) { // C14
  Problem p; p.mesh = gen_mesh(18, false); p.fish = gen(5, "solver") == 4; p.coef.alpha = gen(2, "alpha"); p.coef.beta = gen(2, "beta"); static const int lam[3] = {0, 1, 3}; p.coef.lambda = lam[gen(3, "lambda")]; if (p.fish) p.coef.alpha = p.coef.beta = 0;
  bool zero_only = gen(2, "zero right-hand side"); if (gen(3, "adaptive") == 2) { p.mesh = gen_mesh(22, true); if (p.mesh.minl != p.mesh.maxl && !p.fish) p.coef = gen_coef(false); }
  p.data.kind = 1; HistGen g(p); bool can_cache = p.mesh.minl == p.mesh.maxl; p.cache = g.cache = can_cache && gen(2, "cache"); p.homog = g.homog = gen(2, "homogeneous");
  int n = 1 + gen(5, "rounds");
  for (int k = 0; k < n; k++) {
    if (gen(2, "switch settings")) g.options(can_cache && gen(2, "cache"), gen(2, "homogeneous"));
    if (!p.fish && gen(5, "other coefficients") == 4) { Step s{Step::COEF}; s.coef = gen_coef(can_cache); g.now_coef = s.coef; g.h.push_back(s); g.built = false; g.fresh_rhs = false; }
    Data d = g.data(true); if (zero_only && d.kind != 2 && d.kind != 4) d.kind = 2;
    switch (gen(4, "what")) { case 0: case 1: if (!g.built) g.build(); g.upwards(d); break; case 2: g.build(); break; case 3: if (gen(2, "hps")) { g.h.push_back({Step::NEWHPS}); g.built = false; } g.build(); g.upwards(d); break; }
    g.ready(d); g.solve(d); if (gen(2, "again")) { Data e = g.data(true); g.ready(e); g.solve(e); }
  }
  auto leaves = reference_leaves(p.mesh); int nr = gen_ranks((int)leaves.size(), 4);
  label(strf("%d ranks; ", nr) + text(p) + strf("; %zu leaves;", leaves.size()) + text(g.h, p.fish)); if (p.cache) note("operator cache on"); if (p.homog) note("homogeneous");
  std::vector<Solved> got; run_history(p, g.h, nr, false, 0, got); check_history(p, g.h, got, leaves, nr);
}

extern "C" void workload_progress(const char*) { // C02: the whole program, on many ranks, under bad timing
  Problem p = gen_problem(28, true); fix_bc(p, p.data); HistGen g(p);
  bool weighted = gen(2, "partition"); int ws = gen(1000, "weights"); int rounds = 1 + gen(2, "rounds");
  for (int k = 0; k < rounds; k++) { g.build(); g.upwards(p.data); g.solve(p.data); }
  auto leaves = reference_leaves(p.mesh); int n = gen_ranks((int)leaves.size(), 9); bool vtk = gen(3, "output") != 0, fns = gen(2, "mesh functions"), trav = gen(2, "traversals");
  label(strf("%d ranks%s%s; ", n, weighted ? " weighted" : "", vtk ? " vtk" : "") + text(p) + strf("; %zu leaves;", leaves.size()) + text(g.h, p.fish));
  std::vector<Solved> got; std::string base = scratch() + "/out";
  run_history(p, g.h, n, weighted, ws, got, nullptr,
    [&](Rank& r) { if (trav) { int c = 0; auto& q = r.mesh->quadtree; q.traversePreOrder([&](QNode*) { c++; return 1; }); q.traversePostOrder([&](QNode*) { c--; return 1; }); q.traversePreOrder([&](Patch&) { c++; }); q.traversePostOrder([&](Patch&) { c--; }); if (c) fail("wrong-visit", "pre-order and post-order traversals visit different numbers of nodes"); q.merge([](QNode*) { return 1; }, [](QNode*, std::vector<QNode*>) { return 1; }); q.split([](QNode*) { return 1; }, [](QNode*, std::vector<QNode*>) { return 1; }); } },
    [&](Rank& r) { if (fns) r.mesh->addMeshFunction([](double x, double y) { return x + 2 * y; }, "lin"); if (vtk) r.mesh->toVTK(base); });
  check_history(p, g.h, got, leaves, n);
}

// ------------------------------------------------------------------ C12
typedef CallbackFailed Thrown;
static void retry(bool small) {
  Problem p = gen_problem(small ? 4 : 13, !small); if (small) { p.mesh = MeshSpec(); p.mesh.nx = 2 << gen(2, "nx"); p.mesh.minl = p.mesh.maxl = gen(2, "level"); p.coef.alpha = p.coef.beta = 0; p.coef.lambda = gen(2, "lambda"); } fix_bc(p, p.data); HistGen g(p); p.cache = g.cache = g.may_cache && (small || gen(2, "cache")); p.homog = g.homog = (p.data.kind == 2 || p.data.kind == 4) && gen(3, "homogeneous") == 2;
  g.build(); g.upwards(p.data); g.solve(p.data); int more = small ? 0 : gen(3, "more"); for (int i = 0; i < more; i++) { Data d = g.data(true); if (gen(2, "rebuild")) g.build(); g.upwards(d); g.solve(d); }
  auto leaves = reference_leaves(p.mesh); int n = !small && gen(4, "ranks") == 3 ? gen_ranks((int)leaves.size(), 4) : 1;
  // which stage fails, how and where
  std::vector<size_t> cand; for (size_t i = 0; i < g.h.size(); i++) if (n == 1 || g.h[i].kind == Step::SOLVE) cand.push_back(i);
  int nfail = small ? 1 : 1 + gen(3, "failures"); std::vector<int> mode(g.h.size(), 0); std::vector<double> where(g.h.size(), 0); std::vector<long> early(g.h.size(), 0);
  for (int i = 0; i < nfail; i++) { size_t k = cand[gen((int)cand.size(), "failing stage")]; mode[k] = n > 1 ? 2 : small ? 1 : 1 + gen(2, "kind of failure"); where[k] = gen(1000, "where") / 1000.0; early[k] = gen(2, "early") ? 1 + gen(600, "first operations") : 0; }
  bool restart = gen(2, "start over"); // all stages again, or the failed one only
  std::string fails; for (size_t i = 0; i < mode.size(); i++) if (mode[i]) fails += strf(" [stage %zu fails by %s at %.3f]", i, mode[i] == 1 ? "allocation" : "callback", where[i]);
  label(strf("%d ranks; ", n) + text(p) + strf("; %zu leaves;", leaves.size()) + text(g.h, p.fish) + fails + (restart ? " then all again" : " then again"));
  std::vector<Solved> got; for (size_t i = 0; i < g.h.size(); i++) if (g.h[i].kind == Step::SOLVE) got.push_back({Field(), i});
  // how long each stage is, measured undisturbed on the same rank count: allocations and callback calls
  std::vector<long> allocs(g.h.size()), calls(g.h.size());
  launch(n, [&](int me) { Rank r; Problem q = p; r.start(); r.options(q.cache, q.homog); r.make_mesh(q.mesh); r.make_solver(q); for (size_t i = 0; i < g.h.size(); i++) { long a = alloc_count(); r.calls = r.bnd_calls = 0; run_step(r, q, g.h[i]); if (me == 0) { allocs[i] = alloc_count() - a; calls[i] = n > 1 ? r.bnd_calls : r.calls; /* on several ranks only what every rank does alike */ } } });
  launch(n, [&](int me) {
    Rank r; Problem q = p; r.start(); r.options(q.cache, q.homog); r.make_mesh(q.mesh); r.make_solver(q); size_t k = 0; std::vector<int> todo = mode;
    for (size_t i = 0; i < g.h.size(); i++) {
      const Step& t = g.h[i]; bool failed = false;
      if (todo[i]) {
        long len = todo[i] == 1 ? allocs[i] : calls[i], at = 1 + (long)(where[i] * len); if (early[i] && early[i] <= len) at = early[i]; r.calls = 0; r.throw_at = todo[i] == 2 ? at : 0; if (todo[i] == 1) alloc_fail_in(at);
        try { run_step(r, q, t); } catch (Thrown&) { failed = true; } catch (std::bad_alloc&) { failed = true; if (todo[i] != 1) throw; } catch (std::exception& e) { if (todo[i] == 1 && alloc_fired()) { failed = true; } else throw; }
        bool fired = todo[i] == 1 ? alloc_fired() : r.calls >= at && r.throw_at; int kind = todo[i]; r.throw_at = 0; alloc_fail_in(0); todo[i] = 0;
        if (fired && !failed) fail("swallowed", "stage %zu: the %s failed, yet the stage returned normally", i, kind == 1 ? "allocation" : "callback");
        if (failed) { if (me == 0) note(kind == 1 ? "allocation failed in a stage" : "callback threw in a stage");
          if (restart) { for (size_t j = 0; j <= i; j++) if (g.h[j].kind != Step::SOLVE || j == i) run_step(r, q, g.h[j]); } else run_step(r, q, t); }
      } else run_step(r, q, t);
      if (t.kind == Step::SOLVE) r.collect(got[k++].f);
    }
  });
  check_history(p, g.h, got, leaves, n);
}
extern "C" void workload_retry(const char*) { retry(false); }
extern "C" void workload_retry_small(const char*) { retry(true); } // a small program, where sampling reaches every single allocation

// ------------------------------------------------------------------ C17
extern "C" void workload_soak(const char*) {
  Problem p = gen_problem(16, true); fix_bc(p, p.data); if (p.mesh.nx > 8) { p.mesh.nx = 8; if (p.mesh.before) p.mesh.before->nx = 8; } HistGen g(p); p.cache = g.cache = g.may_cache && gen(2, "cache"); p.homog = (p.data.kind == 2 || p.data.kind == 4) && gen(4, "homogeneous") == 3;
  auto leaves = reference_leaves(p.mesh); int n = gen_ranks((int)leaves.size(), 4); int per = 1 + gen(2, "rounds per block"); bool rebuild = gen(2, "rebuild"), over = gen(2, "overloads"), traverse = gen(2, "traversals");
  label(strf("%d ranks; ", n) + text(p) + strf("; %zu leaves; blocks of %d rounds%s%s", leaves.size(), per, rebuild ? " with rebuilding" : "", traverse ? " and traversals" : ""));
  static const int NB = 4; std::vector<std::vector<Live>> seen(n);
  account(true);
  launch(n, [&](int me) {
    Rank r; r.start(); r.options(p.cache, p.homog); r.make_mesh(p.mesh); r.make_solver(p); bool dir = true; for (int b : p.data.bc) if (b) dir = false;
    auto round = [&](int k) { if (rebuild || k == 0) r.build(); if (over && k % 2 && per > 1) r.upwards_patch(p, p.data); else r.upwards(p, p.data); if (over && dir && per > 1 && k % 2) r.solve_root(p, p.data); else r.solve(p, p.data); if (traverse) { int c = 0; r.mesh->quadtree.traversePreOrder([&](QNode*) { c++; return 1; }); r.mesh->quadtree.traversePostOrder([&](Patch&) { c++; }); r.mesh->iterateCells([&](double, double) { c++; }); } };
    round(0); round(1); round(2); round(3);
    for (int b = 0; b <= NB; b++) { for (int k = 0; k < per; k++) round(2 + k); Live l = live(); Quiet q; seen[me].push_back(l); }
  });
  account(false);
  for (int r = 0; r < n; r++) {
    auto& s = seen[r]; auto grows = [&](int64_t Live::* f, const char* what) { bool up = true; for (int b = 0; b < NB; b++) if (s[b + 1].*f <= s[b].*f) up = false; if (up) fail("leak", "rank %d of %d holds ever more %s: %lld, %lld, ... %lld after %d more blocks of %d round(s)", r, n, what, (long long)(s[0].*f), (long long)(s[1].*f), (long long)(s[NB].*f), NB, per); };
    grows(&Live::comms, "communicators"); grows(&Live::reqs, "message requests"); grows(&Live::groups, "groups"); grows(&Live::types, "datatypes or operations"); grows(&Live::bytes, "memory (bytes)"); grows(&Live::blocks, "memory blocks"); note("rounds", 4 + (NB + 1) * per);
  }
}

extern "C" void workload_soak_long(const char*) { // a small program for many rounds: what grows ever more rarely (a vector that doubles) shows as growth over every doubling
  Problem p; p.mesh.nx = 2 << gen(2, "nx"); p.mesh.minl = p.mesh.maxl = gen(5, "level") == 4 ? 0 : 1; p.coef.alpha = p.coef.beta = 0; p.coef.lambda = gen(2, "lambda"); p.data.kind = 1 + gen(2, "data"); for (int k = 0; k < 4; k++) if (gen(3, "boundary kind") == 2) p.data.bc[k] = 2; p.cache = gen(2, "cache"); p.homog = p.data.kind == 2 && gen(2, "homogeneous");
  int n = p.mesh.minl ? 1 + gen(2, "ranks") : 1; bool rebuild = gen(2, "rebuild"), over = gen(2, "overloads"), traverse = gen(2, "traversals"), mesh = gen(4, "one mesh function") == 3; static const int at[] = {17, 34, 68, 136, 272}; std::vector<std::vector<Live>> seen(n);
  label(strf("%d ranks; ", n) + text(p) + strf("; up to 272 rounds%s%s", rebuild ? " with rebuilding" : "", traverse ? " and traversals" : "")); account(true);
  launch(n, [&](int me) {
    Rank r; r.start(); r.options(p.cache, p.homog); r.make_mesh(p.mesh); r.make_solver(p); if (mesh) r.mesh->addMeshFunction([](double x, double) { return x; }, "x"); int k = 0;
    for (int a : at) { for (; k < a; k++) { if (rebuild || k == 0) r.build(); if (over && k % 2) r.upwards_patch(p, p.data); else r.upwards(p, p.data); r.solve(p, p.data); if (traverse) { int c = 0; r.mesh->quadtree.traversePreOrder([&](QNode*) { c++; return 1; }); r.mesh->quadtree.traversePostOrder([&](Patch&) { c++; }); r.mesh->iterateCells([&](double, double) { c++; }); r.mesh->iteratePatches([&](Patch&) { c++; }); } } Live l = live(); Quiet q; seen[me].push_back(l); }
  });
  account(false);
  for (int r = 0; r < n; r++) { auto& s = seen[r]; auto grows = [&](int64_t Live::* f, const char* what) { bool up = true; for (int b = 0; b < 4; b++) if (s[b + 1].*f <= s[b].*f) up = false; if (up) fail("leak", "rank %d of %d holds ever more %s: %lld after %d rounds, %lld after %d, ... %lld after %d", r, n, what, (long long)(s[0].*f), at[0], (long long)(s[1].*f), at[1], (long long)(s[4].*f), at[4]); }; grows(&Live::comms, "communicators"); grows(&Live::reqs, "message requests"); grows(&Live::groups, "groups"); grows(&Live::types, "datatypes or operations"); grows(&Live::bytes, "memory (bytes)"); grows(&Live::blocks, "memory blocks"); note("long soaks"); note("rounds", 272); }
}

// a known finding of C02: a rank without leaves. Always the same history.
static void empty_rank(int n, int level) {
  Problem p; p.mesh.nx = 4; p.mesh.minl = p.mesh.maxl = level; p.data.kind = 1; HistGen g(p); g.build(); g.upwards(p.data); g.solve(p.data); label(strf("%d ranks; ", n) + text(p) + strf("; %zu leaves;", reference_leaves(p.mesh).size()) + text(g.h, p.fish));
  std::vector<Solved> got; run_history(p, g.h, n, false, 0, got); check_history(p, g.h, got, reference_leaves(p.mesh), n);
}
extern "C" void workload_known_empty_first(const char*) { empty_rank(5, 1); }
extern "C" void workload_known_empty_middle(const char*) { empty_rank(6, 1); }
