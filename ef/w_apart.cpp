// Workloads that run more than one program or problem: C18 C19.
#include "history.h"
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
// ------------------------------------------------------------------ C18: one program, two executions
typedef std::map<std::string, std::vector<double>> Bits;   // what a node holds, by what it is
struct Run { std::vector<std::map<std::string, Bits>> solved; std::map<std::string, std::vector<int>> holders; };
static bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static std::string differ(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return strf("%zu and %zu values", a.size(), b.size()); for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], sizeof(double))) return strf("value %zu is %.17g and %.17g", i, a[i], b[i]); return "nothing"; }
extern "C" void workload_repeat(const char*) {
  Problem p = gen_problem(22, true); fix_bc(p, p.data); HistGen g(p); p.cache = g.cache = g.may_cache && gen(2, "cache"); bool weighted = gen(3, "partition") == 2; int ws = gen(1000, "weights"); bool vtk = gen(3, "output") == 2; int arrays = vtk ? gen(4, "more arrays") : 0;
  g.build(); g.upwards(p.data); g.solve(p.data); int more = gen(3, "more"); for (int i = 0; i < more; i++) { Data d = g.data(true); if (gen(3, "rebuild") == 2) g.build(); if (gen(2, "other right-hand side")) g.upwards(d); g.ready(d); g.solve(d); }
  auto leaves = reference_leaves(p.mesh); int n = gen_ranks((int)leaves.size(), 6);
  label(strf("%d ranks%s%s; ", n, weighted ? " weighted" : "", vtk ? " vtk" : "") + text(p) + strf("; %zu leaves;", leaves.size()) + text(g.h, p.fish));
  Run run[2]; static const int pat[5] = {0, 0xA5, 0xFF, 0x3C, 0x01}; std::vector<Solved> got[2];
  for (int k = 0; k < 2; k++) {
    set_fill(pat[gen(5, "memory pattern")]); set_heap_order(gen(4, "memory order")); Run& R = run[k]; std::string dir = scratch() + strf("/run%d", k); mkdir(dir.c_str(), 0777); size_t solves = 0; for (auto& t : g.h) if (t.kind == Step::SOLVE) solves++; R.solved.resize(solves); std::vector<size_t> at(n, 0);
    run_history(p, g.h, n, weighted, ws, got[k], [&](Rank& r, size_t i) {
      if (g.h[i].kind != Step::SOLVE) return;
      std::vector<QNode*> mine; r.mesh->quadtree.traversePreOrder([&](QNode* q) { mine.push_back(q); return 1; });
      Quiet q; int me = cur_rank(); auto& to = R.solved[at[me]++];
      for (auto* nd : mine) {
        Patch& pt = nd->data; Bits b; b["T"] = pt.matrixT().data(); b["S"] = pt.matrixS().data(); b["g"] = pt.vectorG().data(); b["w"] = pt.vectorW().data(); b["h"] = pt.vectorH().data(); if (nd->leaf) b["u"] = pt.vectorU().data();
        auto it = to.find(nd->path); if (it == to.end()) to[nd->path] = b;
        else for (auto& kv : b) { if (!same(kv.second, it->second[kv.first])) fail("ranks-disagree", "solve %zu: the ranks that share node %s hold different %s: %s", at[me], nd->path.c_str(), kv.first.c_str(), differ(it->second[kv.first], kv.second).c_str()); note("shared node data compared"); }
      }
    }, nullptr, [&](Rank& r) { if (vtk) { r.mesh->addMeshFunction([](double x, double y) { return x - 3 * y; }, "lin"); if (arrays > 0) r.mesh->addMeshFunction([](double x, double y) { return x * y; }, "product"); EF::Vector<double> u; u.name() = "solution"; r.mesh->iteratePatches([&](Patch& pt) { u.append(pt.vectorU()); }); if (arrays > 1) r.mesh->addMeshFunction(u); if (arrays > 2) r.mesh->addMeshFunction([](double x, double) { return x; }, "x"); r.mesh->toVTK(dir + "/out"); } });
  }
  for (size_t s = 0; s < run[0].solved.size(); s++) {
    auto &a = run[0].solved[s], &b = run[1].solved[s]; if (a.size() != b.size()) fail("not-repeatable", "solve %zu: %zu nodes in one execution, %zu in the other", s + 1, a.size(), b.size());
    for (auto& kv : a) { auto it = b.find(kv.first); if (it == b.end()) fail("not-repeatable", "solve %zu: node %s exists in one execution only", s + 1, kv.first.c_str()); for (auto& x : kv.second) { if (!same(x.second, it->second[x.first])) fail("not-repeatable", "solve %zu: node %s holds different %s in two executions: %s", s + 1, kv.first.c_str(), x.first.c_str(), differ(x.second, it->second[x.first]).c_str()); note("values compared bit for bit", (double)x.second.size()); } }
    for (auto& kv : got[0][s].f) if (kv.second.rank != got[1][s].f[kv.first].rank) fail("not-repeatable", "leaf %s is on rank %d in one execution, on rank %d in the other", kv.first.c_str(), kv.second.rank, got[1][s].f[kv.first].rank);
  }
  if (vtk) { auto read = [](const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }; std::vector<std::string> fs = {"out-mesh.pvtu"}; for (int r = 0; r < n; r++) fs.push_back(strf("out-mesh_%04d.vtu", r)); for (auto& f : fs) { std::string a = read(scratch() + "/run0/" + f), b = read(scratch() + "/run1/" + f); if (a.empty() || a != b) fail("not-repeatable", "file %s differs between two executions (%zu and %zu bytes)", f.c_str(), a.size(), b.size()); note("files compared"); } }
  check_history(p, g.h, got[0], leaves, n);
}

// ------------------------------------------------------------------ C19: several problems in one process
extern "C" void workload_apart(const char*) {
  int k = 2 + gen(2, "problems"); std::vector<Problem> ps; std::vector<HistGen> gs; std::vector<std::map<std::string, Box>> leaves; std::vector<int> weighted, drop; int most = 99;
  for (int i = 0; i < k; i++) {
    Problem p = gen_problem(13, true); fix_bc(p, p.data); HistGen g(p); p.cache = g.cache = g.may_cache && gen(2, "cache"); p.homog = g.homog = (p.data.kind == 2 || p.data.kind == 4) && gen(3, "homogeneous") == 2;
    int rounds = 1 + gen(3, "rounds"); Data d = p.data; for (int j = 0; j < rounds; j++) { if (j) d = g.data(true); if (gen(3, "rebuild") == 2) g.build(); if (gen(2, "other right-hand side")) { if (!g.built) g.build(); g.upwards(d); } g.ready(d); g.solve(d); }
    ps.push_back(p); gs.push_back(g); leaves.push_back(reference_leaves(p.mesh)); most = std::min(most, (int)leaves.back().size()); weighted.push_back(gen(4, "partition") == 3); drop.push_back(gen(2, "dropped when done"));
  }
  int n = gen_ranks(most, 4);
  // one order in which all ranks interleave the problems: creation, stages, destruction
  std::vector<int> order, left; for (int i = 0; i < k; i++) left.push_back((int)gs[i].h.size() + 1); for (;;) { std::vector<int> c; for (int i = 0; i < k; i++) if (left[i]) c.push_back(i); if (c.empty()) break; int i = c[gen((int)c.size(), "whose turn")]; left[i]--; order.push_back(i); }
  std::string s = strf("%d ranks; ", n); for (int i = 0; i < k; i++) s += strf("%c: ", 'A' + i) + text(ps[i]) + ";" + text(gs[i].h, ps[i].fish) + "; "; s += "order "; for (int i : order) s += char('A' + i); label(s);
  std::vector<std::vector<Solved>> got(k); for (int i = 0; i < k; i++) for (size_t j = 0; j < gs[i].h.size(); j++) if (gs[i].h[j].kind == Step::SOLVE) got[i].push_back({Field(), j});
  launch(n, [&](int) {
    Rank main; main.start(); std::vector<std::unique_ptr<Rank>> r(k); std::vector<Problem> q = ps; std::vector<size_t> at(k, 0), sol(k, 0); std::vector<std::pair<bool, bool>> opt; for (int i = 0; i < k; i++) opt.push_back({ps[i].cache, ps[i].homog});
    for (int i : order) {
      main.options(opt[i].first, opt[i].second);
      if (!r[i]) { r[i].reset(new Rank()); if (weighted[i]) r[i]->make_mesh_weighted(q[i].mesh, 7 + i); else r[i]->make_mesh(q[i].mesh); r[i]->make_solver(q[i]); continue; }
      const Step& t = gs[i].h[at[i]++]; if (t.kind == Step::OPTIONS) opt[i] = {t.cache, t.homog}; else run_step(*r[i], q[i], t);
      if (t.kind == Step::SOLVE) { r[i]->collect(got[i][sol[i]++].f); note("solves among other problems"); }
      if (at[i] == gs[i].h.size() && drop[i]) { r[i].reset(); note("problems dropped while others go on"); }
    }
    r.clear();
  });
  for (int i = 0; i < k; i++) check_history(ps[i], gs[i].h, got[i], leaves[i], n);
}
