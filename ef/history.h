// Histories of stage calls: how they are generated, run and checked.
#pragma once
#include "common.h"
#include <algorithm>
using namespace sim;
static Problem gen_problem(int max_leaves, bool allow_bc) {
  Problem p; p.mesh = gen_mesh(max_leaves, true); p.fish = gen(5, "solver") == 4; p.coef = gen_coef(p.fish);
  if (p.fish) p.coef.alpha = p.coef.beta = 0;
  p.data = gen_data(allow_bc); if (sim::gen(8, "scale") == 7) { static const double sc[4] = {1e-8, 1e5, 1e-3, 1e-12}; p.data.scale = sc[sim::gen(4, "scale")]; } p.data.unit = std::min(1.0, p.mesh.xu - p.mesh.xl); if (p.data.kind == 0 && p.coef.beta == 4) p.coef.beta = 2;
  return p;
}
// pure Neumann without a zeroth-order term has no unique solution; nor may a point-wise mix be all there is
static void fix_bc(const Problem& p, Data& d) { bool any = p.coef.lambda != 0 && (p.mesh.xu - p.mesh.xl) * (p.mesh.yu - p.mesh.yl) > 0.05; for (int s = 0; s < 4; s++) if (d.bc[s] == 0 || d.bc[s] == 2) any = true; if (!any) d.bc[0] = 0; }
static Field exact_field(const Problem& p, const Data& d, const std::map<std::string, Box>& leaves) { Field f; int k = p.mesh.nx; for (auto& kv : leaves) { Leaf l; l.box = kv.second; double dx = (l.box.xu - l.box.xl) / k, dy = (l.box.yu - l.box.yl) / k; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) l.u.push_back(exact_linear(d, l.box.xl + (i + 0.5) * dx, l.box.yl + (j + 0.5) * dy)); f[kv.first] = l; } return f; }

// ------------------------------------------------------------------ a history: the stages a program calls, in order
struct Step {
  enum Kind { BUILD, UPWARDS, SOLVE, OPTIONS, NEWHPS, NEWSOLVER, COEF, SETUP } kind; Data d; int overload = 0; bool cache = false, homog = false; Coef coef; // OPTIONS / COEF
  Coef want_coef; Data want_rhs; bool want_zero = false; // SOLVE: what must come out
};
typedef std::vector<Step> History;
static std::string text(const History& h, bool fish) {
  std::string s; for (auto& t : h) { switch (t.kind) { case Step::BUILD: s += " build"; break; case Step::UPWARDS: s += strf(" upwards%s(%d)", t.overload ? "P" : "", t.d.kind); break; case Step::SOLVE: s += strf(" solve%s(%d,%d%d%d%d)", t.overload ? "P" : "", t.d.kind, t.d.bc[0], t.d.bc[1], t.d.bc[2], t.d.bc[3]); break; case Step::OPTIONS: s += strf(" options(%d%d)", t.cache, t.homog); break; case Step::NEWHPS: s += " new-hps"; break; case Step::NEWSOLVER: s += " new-solver"; break; case Step::COEF: s += strf(" coefficients(%d%d%d)", t.coef.alpha, t.coef.beta, t.coef.lambda); break; case Step::SETUP: s += " setup"; } } (void)fish; return s;
}
// what a run leaves behind for the oracles
struct Solved { Field f; size_t step; };
static void run_step(Rank& r, Problem& p, const Step& t) {
  switch (t.kind) {
    case Step::SETUP: r.hps->setupStage(); break;
    case Step::BUILD: r.build(); break;
    case Step::UPWARDS: if (t.overload) r.upwards_patch(p, t.d); else r.upwards(p, t.d); break;
    case Step::SOLVE: if (t.overload) r.solve_root(p, t.d); else r.solve(p, t.d); break;
    case Step::OPTIONS: r.options(t.cache, t.homog); break;
    case Step::COEF: p.coef = t.coef; r.set_functions(p); break;
    case Step::NEWHPS: r.new_hps(); break;
    case Step::NEWSOLVER: r.make_solver(p); break;
  }
}
static void run_history(const Problem& prob, const History& h, int n, bool weighted, int wseed, std::vector<Solved>& out, const std::function<void(Rank&, size_t)>& after = nullptr, const std::function<void(Rank&)>& before = nullptr, const std::function<void(Rank&)>& end = nullptr) {
  out.clear(); for (size_t i = 0; i < h.size(); i++) if (h[i].kind == Step::SOLVE) out.push_back({Field(), i});
  launch(n, [&](int) {
    Rank r; Problem p = prob; r.start(); r.options(p.cache, p.homog); if (weighted) r.make_mesh_weighted(p.mesh, wseed); else r.make_mesh(p.mesh);
    if (before) before(r);
    r.make_solver(p); size_t k = 0;
    for (size_t i = 0; i < h.size(); i++) { run_step(r, p, h[i]); if (h[i].kind == Step::SOLVE) r.collect(out[k++].f); if (after) after(r, i); }
    if (end) end(r);
  });
}
struct Refs { // reference solvers by coefficients
  const Problem& base; const std::map<std::string, Box>& leaves; std::map<std::array<int, 3>, std::shared_ptr<RefSolver>> m;
  Field want(const Step& t) { Problem p = base; p.coef = t.want_coef; auto& r = m[{p.coef.alpha, p.coef.beta, p.coef.lambda}]; if (!r) r = std::make_shared<RefSolver>(p, leaves); return r->solve2(t.want_rhs, t.d, t.want_zero); }
};
static void check_history(const Problem& p, const History& h, std::vector<Solved>& got, const std::map<std::string, Box>& leaves, int n) {
  Refs refs{p, leaves, {}};
  for (size_t k = 0; k < got.size(); k++) {
    const Step& t = h[got[k].step]; check_tiling(p.mesh, got[k].f, n);
    bool linear = t.d.kind == 0 && !t.want_zero && t.want_rhs.kind == 0 && t.want_rhs.c0 == t.d.c0 && t.want_rhs.c1 == t.d.c1 && t.want_rhs.c2 == t.d.c2 && t.want_coef.beta != 4;
    std::string what = strf("stage %zu (solve %zu of %zu)", got[k].step, k + 1, got.size());
    if (linear) { note("linear solutions"); compare(what.c_str(), got[k].f, exact_field(p, t.d, leaves), 1e-8, "wrong-answer", t.d.scale); }
    else { note("compared with the reference"); compare(what.c_str(), got[k].f, refs.want(t), 1e-8, "wrong-answer", t.d.scale); }
  }
}
struct HistGen { // builds valid histories
  Problem p; History h; bool built = false, fresh_rhs = false; Data rhs; Coef built_coef, now_coef; bool cache, homog; bool allow_opts, may_cache;
  HistGen(const Problem& q) : p(q), now_coef(q.coef), cache(q.cache), homog(q.homog) { may_cache = q.mesh.minl == q.mesh.maxl && q.coef.alpha < 2 && q.coef.beta < 2 && q.coef.lambda != 2; }
  Data data(bool allow_bc) { Data d = gen_data(allow_bc); d.scale = p.data.scale; d.unit = p.data.unit; if (homog && d.kind != 2 && d.kind != 4) d.kind = 2 + 2 * (d.kind & 1); if (d.kind == 0 && now_coef.beta == 4) d.kind = 1; Problem q = p; q.coef = now_coef; fix_bc(q, d); return d; }
  void build() { Step s{Step::BUILD}; h.push_back(s); if (!(now_coef.alpha == built_coef.alpha && now_coef.beta == built_coef.beta && now_coef.lambda == built_coef.lambda && built)) fresh_rhs = false; built = true; built_coef = now_coef; }
  void upwards(const Data& d) { Step s{Step::UPWARDS}; s.d = d; s.overload = gen(3, "upwards overload") == 2; h.push_back(s); rhs = d; fresh_rhs = !homog; }
  void solve(const Data& d) { Step s{Step::SOLVE}; s.d = d; bool dir = true; for (int k = 0; k < 4; k++) if (d.bc[k]) dir = false; s.overload = dir && gen(3, "solve overload") == 2; s.want_coef = built_coef; s.want_rhs = rhs; s.want_zero = homog; h.push_back(s); if (homog && rhs.kind != 2 && rhs.kind != 4) fresh_rhs = false; } // a homogeneous solve of a problem that is not: what the general path needs is gone
  void options(bool c, bool g) { Step s{Step::OPTIONS}; s.cache = cache = c; s.homog = homog = g; h.push_back(s); }
  void ready(const Data& d) { if (!built) build(); if (!fresh_rhs && !homog) upwards(d); }
};

