// C25: programs that step in time. Every right-hand side is made from the solution the leaves hold.
#include "vtkcheck.h"
#include "history.h"
struct Seg { MeshSpec mesh; Coef coef; int steps = 1, how = 0; };   // how this stretch begins: 0 other step size only, 1 refined again, 2 and another algorithm object
struct StepSpec {
  std::vector<Seg> segs; Problem p; int way = 0, react = 0, every = 0, source = 0, start = 1, number = 0; bool insulated = false, vary = false, named = true; int n = 1; int total() const { int t = 0; for (auto& s : segs) t += s.steps; return t; }
  int bad_snap = -1, bad_how = 0, bad_at = 0, kill = 0, kill_step = 0, kill_at = 0, fail_step = -1, fail_stage = 0; double fail_where = 0; long fail_early = 0;
};
static void rebox(MeshSpec& m, double xl, double xu, double yl, double yu) { auto X = [&](double x) { return xl + (x - m.xl) / (m.xu - m.xl) * (xu - xl); }; auto Y = [&](double y) { return yl + (y - m.yl) / (m.yu - m.yl) * (yu - yl); }; for (auto& r : m.rects) r = {X(r.x0), X(r.x1), Y(r.y0), Y(r.y1)}; m.xl = xl; m.xu = xu; m.yl = yl; m.yu = yu; }
static MeshSpec other_mesh(const MeshSpec& m) { // the same domain and patches, refined elsewhere
  MeshSpec b = m; b.rects.clear(); b.minl = gen(3, "min level"); if (b.nx > 8 || b.nx == 7) b.minl = std::min(b.minl, 1); b.maxl = b.minl + (b.nx == 8 && b.minl < 2 ? gen(3, "extra levels") : 0);
  if (b.maxl > b.minl) { int x = gen(40, "x"), y = gen(40, "y"); b.rects.push_back({b.xl + (x + 0.37) / 64 * (b.xu - b.xl), b.xl + (x + 12.37) / 64 * (b.xu - b.xl), b.yl + (y + 0.37) / 64 * (b.yu - b.yl), b.yl + (y + 12.37) / 64 * (b.yu - b.yl)}); while (b.maxl > b.minl && reference_leaves(b).size() > 14) b.maxl--; }
  return b;
}
static StepSpec gen_steps() {
  StepSpec s; Problem& p = s.p; p.mesh = gen_mesh(14, true); p.mesh.before.reset(); if (p.mesh.xu - p.mesh.xl < 0.3 || p.mesh.xu - p.mesh.xl > 10) rebox(p.mesh, -1, 1, -1, 1);
  p.fish = gen(5, "solver") == 4; if (!p.fish) { p.coef.alpha = gen(2, "alpha"); p.coef.beta = gen(5, "beta"); } s.insulated = gen(3, "insulated") == 2; s.source = gen(3, "source"); s.react = gen(4, "reaction") == 3; if (s.insulated && gen(2, "nothing added")) { s.source = 0; s.react = 0; } s.start = gen(2, "start") ? 3 : 1;
  int lam = 10 + gen(3, "step size"); int nseg = 1 + (gen(2, "stretches") ? gen(3, "stretches") : 0); MeshSpec m = p.mesh;
  for (int k = 0; k < nseg; k++) { Seg g; if (k) { g.how = gen(3, "what changes"); if (g.how) m = other_mesh(m); if (!g.how || gen(2, "step size too")) lam = 10 + gen(3, "step size"); } g.mesh = m; g.coef = p.coef; g.coef.lambda = lam; g.steps = 1 + gen(4, "steps"); if (gen(12, "many steps") == 11) g.steps += 10; s.segs.push_back(g); }
  p.coef = s.segs[0].coef; bool uniform = true; for (auto& g : s.segs) if (g.mesh.minl != g.mesh.maxl) uniform = false; p.cache = uniform && p.coef.beta < 2 && gen(2, "cache");
  p.data.kind = 1; p.data.unit = std::min(1.0, p.mesh.xu - p.mesh.xl); if (s.insulated) { p.data.kind = 4; for (int b = 0; b < 4; b++) { p.data.bc[b] = 1; p.data.sc[b] = gen(2, "multiple") ? 1 : 0; } } else { if (gen(2, "boundary kinds")) for (int b = 0; b < 4; b++) p.data.bc[b] = gen(4, "side"); s.vary = gen(2, "boundary data vary"); }
  s.way = gen(4, "how the right-hand side is made"); s.every = gen(3, "output every"); s.named = gen(2, "array names"); s.number = gen(3, "first number") * 4999;
  int most = 99; for (auto& g : s.segs) most = std::min(most, (int)reference_leaves(g.mesh).size()); s.n = gen_ranks(most, 5); int T = s.total();
  switch (gen(5, "trouble")) {
    case 2: if (s.every) { s.bad_snap = gen(std::max(1, T / s.every), "failing output"); s.bad_how = gen(3, "how"); s.bad_at = gen(40, "where"); } break;
    case 3: s.kill = 1 + gen(2, "how the job ends"); s.kill_step = gen(T, "when"); s.kill_at = gen(200, "where"); if (s.kill == 2 && !s.every) s.kill = 1; break;
    case 4: s.fail_step = gen(T, "failing step"); s.fail_stage = gen(s.n > 1 ? 1 : 3, "failing stage"); s.fail_where = gen(1000, "where") / 1000.0; s.fail_early = gen(2, "early") ? 1 + gen(400, "first operations") : 0; break;
  }
  return s;
}
static std::string text(const StepSpec& s) {
  std::string o = strf("%d ranks; ", s.n) + text(s.p) + "; steps"; for (auto& g : s.segs) o += strf(" [%s%d with lambda %d%s]", g.how == 0 ? "" : g.how == 1 ? "refined again: " : "refined again, new solver: ", g.steps, g.coef.lambda, g.how ? (", " + g.mesh.text()).c_str() : "");
  static const char* w[4] = {"cell by cell in the patch callback", "as a vector in the patch callback", "by traversal, kept by the callback", "point by point"}; o += std::string("; right-hand side ") + w[s.way]; if (s.insulated) o += ", insulated"; if (s.vary) o += ", boundary data vary"; if (s.react) o += ", reaction"; if (s.source) o += strf(", source %d", s.source); if (s.every) o += strf(", output every %d", s.every);
  if (s.bad_snap >= 0) o += strf(", output %d fails", s.bad_snap); if (s.kill) o += strf(", killed %s in step %d", s.kill == 1 ? "while computing" : "while writing", s.kill_step); if (s.fail_step >= 0) o += strf(", stage %d of step %d fails first", s.fail_stage, s.fail_step); return o;
}
// the equation the steps follow
static double start_value(const StepSpec& s, double x, double y) { Data d; d.kind = s.start; return rhs_of(s.p, d, x, y) / 3; }
static double source(const StepSpec& s, int k, double x, double y) { return s.source == 0 ? 0 : s.source == 1 ? 2 + std::sin(x - y) : 5 * std::cos(0.7 * k + x); }
static double load_of(const StepSpec& s, const Coef& c, int k, double x, double y, double u) { return f_lambda(c.lambda, x, y) * u - source(s, k, x, y) - (s.react ? 3 * std::sin(u) : 0); }
static Data boundary(const StepSpec& s, int k) { Data d = s.p.data; if (s.vary) { d.k = 1 + k % 4; d.c2 = 1 + 0.25 * k; } return d; }
static double value_at(const MeshSpec& m, const Field& f, double x, double y) { // of the cell there; just above and to the right of an edge
  x += 1e-5 * (m.xu - m.xl); y += 1e-5 * (m.yu - m.yl); for (auto& kv : f) { const Box& b = kv.second.box; if (x < b.xl || x >= b.xu || y < b.yl || y >= b.yu) continue; int i = (int)((x - b.xl) / (b.xu - b.xl) * m.nx), j = (int)((y - b.yl) / (b.yu - b.yl) * m.my()); return kv.second.u[j + i * m.my()]; } infra("no leaf at (%g,%g)", x, y);
}
struct Snap { std::vector<Content> c; std::vector<std::string> error, names; int done = 0, number = 0; };
extern "C" void workload_stepping(const char*) {
  StepSpec s = gen_steps(); label(text(s)); int n = s.n, T = s.total(); if (s.every && chdir(scratch().c_str())) infra("chdir");
  std::vector<Field> got(T); std::vector<int> have(T, 0); std::vector<double> heat(T, 0); std::vector<std::vector<double>> heats(T, std::vector<double>(n, 0)); int nsnap = s.every ? (T + s.every - 1) / s.every : 0; std::vector<Snap> snaps(nsnap); for (auto& x : snaps) { x.c.resize(n); x.error.resize(n); }
  std::vector<Seg*> seg_of; std::vector<char> first; for (auto& g : s.segs) for (int k = 0; k < g.steps; k++) { seg_of.push_back(&g); first.push_back(k == 0); }
  std::string base = scratch() + "/heat"; long at = 0;
  // how much each stage of the step that is to fail does, measured undisturbed up to there
  auto program = [&](int me, bool measure) {
    Rank r; r.start(); r.options(s.p.cache, false); Problem p = s.p; r.make_mesh(p.mesh); r.make_solver(p); std::vector<std::unique_ptr<EF::Vector<double>>> arrays;
    for (int k = 0; k < T; k++) {
      Seg& g = *seg_of[k]; bool fresh = k == 0 || (first[k] && g.how); // no previous solution on these patches
      if (first[k]) { if (k && g.how) { sync_all("the solution is known"); p.mesh = g.mesh; const MeshSpec* m = &g.mesh; r.mesh->refineByFunction([m](double x, double y) { return m->crit(x, y); }, 0, g.mesh.minl, g.mesh.maxl, *r.root, *r.factory); note("refined between steps"); if (g.how == 2) { r.new_hps(); r.hps->setupStage(); } } p.coef = g.coef; r.set_functions(p); r.build(); }
      Coef c = g.coef; const Field* old = k ? &got[k - 1] : nullptr; const MeshSpec* om = k ? &seg_of[k - 1]->mesh : nullptr;
      auto u_at = [&](double x, double y) { if (!old) return start_value(s, x, y); Quiet q; return value_at(*om, *old, x, y); };
      auto upwards = [&] {
        if (fresh || s.way == 3) { if (s.way == 3 && !fresh) sync_all("the solution is known"); r.hps->upwardsStage([&](double x, double y) -> double { r.called(); return load_of(s, c, k, x, y, u_at(x, y)); }); return; }
        auto fill = [&](Patch& patch, EF::Vector<double>& f) { auto& gr = patch.grid(); int nx = gr.nx(), ny = gr.ny(); for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) f[j + i * ny] = load_of(s, c, k, gr(0, i), gr(1, j), patch.vectorU()[j + i * ny]); };
        if (s.way == 2) r.mesh->iteratePatches([&](Patch& patch) { EF::Vector<double> f(patch.grid().nx() * patch.grid().ny()); fill(patch, f); patch.vectorF() = f; });
        r.hps->upwardsStage([&](Patch& patch) { r.called(); if (s.way == 2) return; if (s.way == 1) { double lam = f_lambda(c.lambda, 0, 0); auto& gr = patch.grid(); EF::Vector<double> q(gr.nx() * gr.ny()); fill(patch, q); for (size_t i = 0; i < q.size(); i++) q[i] -= lam * patch.vectorU()[i]; patch.vectorF() = lam * patch.vectorU(); for (size_t i = 0; i < q.size(); i++) patch.vectorF()[i] += q[i]; return; } patch.vectorF() = EF::Vector<double>(patch.grid().nx() * patch.grid().ny()); fill(patch, patch.vectorF()); });
      };
      Data d = boundary(s, k); auto solve = [&] { r.solve(p, d); };
      auto stage = [&](int which, const std::function<void()>& f) {
        bool mine = k == s.fail_step && which == (s.n > 1 ? 1 : s.fail_stage == 2 ? 1 : 0), cb = s.n > 1 || s.fail_stage == 1; // on several ranks only what every rank meets alike
        if (!mine) { f(); return; } if (measure) { long a = alloc_count(); r.calls = r.bnd_calls = 0; f(); if (me == 0) { Quiet q; at = cb ? r.calls : alloc_count() - a; if (s.n > 1) at = r.bnd_calls; } return; }
        long w = 1 + (long)(s.fail_where * at); if (s.fail_early && s.fail_early <= at) w = s.fail_early; r.calls = 0; if (cb) r.throw_at = w; else alloc_fail_in(w); bool failed = false;
        try { f(); } catch (CallbackFailed&) { failed = true; } catch (std::bad_alloc&) { failed = true; } catch (std::exception&) { if (!cb && alloc_fired()) failed = true; else throw; } bool fired = cb ? r.calls >= w : alloc_fired(); r.throw_at = 0; alloc_fail_in(0);
        if (fired && !failed) fail("swallowed", "step %d: a failure inside the stage did not reach the caller", k); if (failed) { if (me == 0) note("steps repeated after a failure"); f(); }
      };
      if (s.kill == 1 && k == s.kill_step && !measure && me == s.kill_at % n) r.throw_at = 0;
      if (s.kill == 1 && k == s.kill_step && !measure && me == s.kill_at % n && s.kill_at < 100) kill_job();
      stage(0, upwards);
      if (s.kill == 1 && k == s.kill_step && !measure && me == s.kill_at % n) kill_job();
      stage(1, solve); if (measure) { r.collect(got[k]); if (k == s.fail_step) return; continue; }
      r.collect(got[k]); double h = 0, all = 0; r.mesh->iteratePatches([&](Patch& patch) { auto& gr = patch.grid(); double a = gr.dx() * gr.dy(); auto& u = patch.vectorU(); for (size_t i = 0; i < u.size(); i++) h += a * u[i]; }); EF::MPI::allreduce(h, all, MPI_SUM, MPI_COMM_WORLD); { Quiet q; heats[k][me] = all; have[k]++; }
      if (s.every && k % s.every == 0) {
        int w = k / s.every; Snap& sn = snaps[w]; sn.number = s.number + w; r.mesh->clearMeshFunctions(); arrays.emplace_back(new EF::Vector<double>()); auto& a = *arrays.back(); a.name() = s.named ? "u_soln" : "u & more"; arrays.emplace_back(new EF::Vector<double>()); auto& b = *arrays.back(); b.name() = "f_rhs"; r.mesh->quadtree.traversePreOrder([&](QNode* node) { if (node->leaf) { a.append(node->data.vectorU()); b.append(node->data.vectorF()); } return 1; });
        r.mesh->addMeshFunction(a); r.mesh->addMeshFunction(b); r.mesh->addMeshFunction([&](double x, double y) { return fn_value(0, x, y) + k; }, "step");
        { Quiet q; local_cells(*r.mesh, sn.c[me]); sn.c[me].cell_data.clear(); sn.c[me].cell_data.resize(3); auto& cd = sn.c[me].cell_data; for (auto& kv : r.mesh->quadtree.map) if (kv.second && kv.second->leaf) { auto& l = got[k].at(kv.first); auto& bx = l.box; int nx = p.mesh.nx, ny = p.mesh.my(); for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { double x = bx.xl + (i + 0.5) * (bx.xu - bx.xl) / nx, y = bx.yl + (j + 0.5) * (bx.yu - bx.yl) / ny; cd[0].push_back(l.u[j + i * ny]); cd[1].push_back(load_of(s, c, k, x, y, fresh || s.way == 3 ? u_at(x, y) : old->at(kv.first).u[j + i * ny])); cd[2].push_back(fn_value(0, x, y) + k); } } if (sn.names.empty()) sn.names = {a.name(), "f_rhs", "step"}; }
        bool bad = w == s.bad_snap, die = s.kill == 2 && k / s.every == s.kill_step / s.every;
        if (bad || die) { sync_all("before the output"); if (me == 0) { DiskPlan dp; if (die) dp.kill_after_writes = 1 + s.kill_at; else if (s.bad_how == 0) { dp.open_fail = 1 + s.bad_at % 8; dp.open_errno = ENOSPC; } else { dp.write_budget = (long)s.bad_at * s.bad_at * 37; dp.write_errno = s.bad_how == 1 ? ENOSPC : EIO; } set_disk(dp); } sync_all("disk set"); }
        std::string err; try { r.mesh->toVTK(base, sn.number); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; } { Quiet q; sn.error[me] = err; sn.done++; }
        if (bad || die) { sync_all("after the output"); if (me == 0 && bad) { Quiet q; check_reported("a snapshot", sn.error, n); if (disk_fired().ranks | disk_fired().soft) { note("snapshots failed"); if (sn.error[0].empty()) sn.error[0] = "met inside a library that did not see it"; } } sync_all("checked"); if (me == 0) set_disk(DiskPlan()); sync_all("disk mended"); } else if (!err.empty()) fail("false-failure", "writing snapshot %d failed without cause: %s", w, err.c_str());
      }
    }
  };
  if (s.fail_step >= 0) { launch(n, [&](int me) { program(me, true); }); for (auto& f : got) f.clear(); }
  launch(n, [&](int me) { program(me, false); });
  // the trajectory
  std::map<std::pair<int, int>, std::shared_ptr<RefSolver>> refs; Field prev; double before = 0;
  for (int k = 0; k < T; k++) {
    if (have[k] != n) { if (!s.kill) fail("progress", "only %d of %d ranks finished step %d", have[k], n, k); break; }
    Seg& g = *seg_of[k]; int gi = (int)(&g - &s.segs[0]); auto& ref = refs[{gi, 0}]; Problem p = s.p; p.mesh = g.mesh; p.coef = g.coef; if (!ref) ref = std::make_shared<RefSolver>(p, reference_leaves(g.mesh)); Data d = boundary(s, k);
    check_tiling(g.mesh, got[k], n); const MeshSpec* om = k ? &seg_of[k - 1]->mesh : nullptr; Data zero; ref->load = [&](double x, double y) { return load_of(s, g.coef, k, x, y, k ? value_at(*om, prev, x, y) : start_value(s, x, y)); };
    Field want = ref->solve2(zero, d); ref->load = nullptr; compare(strf("step %d of %d", k, T).c_str(), got[k], want, 1e-8); note("steps compared with the reference");
    // the balance of heat, from the values alone: what flows in, is added and stays
    if (g.coef.beta < 2 || p.fish) {
      int nx = g.mesh.nx, ny = g.mesh.my(); double al = p.fish ? 1 : f_alpha(g.coef.alpha, 0, 0), be = p.fish ? 1 : f_beta(g.coef.beta, 0, 0), flow = 0, kept = 0, in = 0, size = 0, tot = 0; auto add = [&](double& t, double v) { t += v; size += std::fabs(v); };
      for (auto& kv : got[k]) { auto& l = kv.second; auto& b = l.box; double dx = (b.xu - b.xl) / nx, dy = (b.yu - b.yl) / ny; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { double x = b.xl + (i + 0.5) * dx, y = b.yl + (j + 0.5) * dy, u = l.u[j + i * ny]; add(kept, dx * dy * f_lambda(g.coef.lambda, x, y) * u); add(in, dx * dy * load_of(s, g.coef, k, x, y, k ? value_at(*om, got[k - 1], x, y) : start_value(s, x, y))); tot += dx * dy * u; }
        for (int q = 0; q < nx; q++) { if (b.xl == g.mesh.xl) add(flow, al * be * dy * (l.g[q] - l.u[q]) / (dx / 2)); if (b.xu == g.mesh.xu) add(flow, al * be * dy * (l.g[nx + q] - l.u[q + (nx - 1) * nx]) / (dx / 2)); if (b.yl == g.mesh.yl) add(flow, al * be * dx * (l.g[2 * nx + q] - l.u[q * nx]) / (dy / 2)); if (b.yu == g.mesh.yu) add(flow, al * be * dx * (l.g[3 * nx + q] - l.u[nx - 1 + q * nx]) / (dy / 2)); } }
      if (!(std::fabs(flow + kept - in) <= 1e-9 * (1 + size) / std::min(1.0, p.data.unit))) fail("balance", "step %d: %.12g flows in and %.12g stays where %.12g is prescribed", k, flow, kept, in); note("balances checked");
      if (s.insulated && !s.source && !s.react && k && !(first[k] && g.how)) { if (!(std::fabs(tot - before) <= 1e-9 * (1 + std::fabs(tot)) + 1e-10 * size)) fail("balance", "step %d: insulated, yet the heat goes from %.12g to %.12g", k, before, tot); note("conserved"); }
      before = tot; for (int m = 0; m < n; m++) if (!(std::fabs(heats[k][m] - tot) <= 1e-10 * (1 + size))) fail("wrong-sum", "step %d: rank %d sums up %.12g over the patches of all ranks, the leaves hold %.12g", k, m, heats[k][m], tot);
    }
    prev = std::move(want);
  }
  for (int w = 0; w < nsnap; w++) { Snap& sn = snaps[w]; bool ok = sn.done == n; for (auto& e : sn.error) if (!e.empty()) ok = false; if (!ok) { if (!s.kill && w != s.bad_snap) fail("progress", "snapshot %d was not written", w); continue; }
    std::string num = strf("-%04d", sn.number); std::vector<std::string> pieces; for (int r = 0; r < n; r++) pieces.push_back(base + "-mesh" + num + strf("_%04d.vtu", r)); for (int r = 0; r < n; r++) check_piece(pieces[r], sn.c[r], sn.names, {}); check_header(base + "-mesh" + num + ".pvtu", pieces, sn.names, {}); check_forest_files(base + "-quadtree" + num, sn.c); note("snapshots checked"); }
}
