// Workloads on the distributed quadtree and the mesh, without solving: C04 C05 C06.
#include "common.h"
#include <algorithm>
#include <cstring>
using namespace sim;
// ------------------------------------------------------------------ forests made by the program itself
struct ForestSpec { int minl = 0, maxl = 1, density = 3, seed = 1, weights = 0, deep = 0; bool balance = true; double xl = 0, xu = 1, yl = 0, yu = 1; int nx = 2, ny = 2; };
static unsigned mix(unsigned h) { h ^= h >> 16; h *= 0x7feb352du; h ^= h >> 15; h *= 0x846ca68bu; h ^= h >> 16; return h; }
static unsigned qhash(const p4est_quadrant_t* q, unsigned seed) { return mix((unsigned)(q->x >> 18) * 2654435761u + mix((unsigned)(q->y >> 18) + mix(q->level * 131u + seed))); }
static std::string qpath(const p4est_quadrant_t* q) { std::string s = "0"; for (int l = 1; l <= q->level; l++) { int b = P4EST_MAXLEVEL - l; s += char('0' + ((q->x >> b) & 1) + 2 * ((q->y >> b) & 1)); } return s; }
static std::string text(const ForestSpec& s) { return strf("forest levels %d..%d%s density %d seed %d%s%s, %dx%d cells, box [%g,%g]x[%g,%g]", s.minl, s.maxl, s.deep ? strf(", %d at one point,", s.deep).c_str() : "", s.density, s.seed, s.balance ? " balanced" : "", s.weights ? " weighted" : "", s.nx, s.ny, s.xl, s.xu, s.yl, s.yu); }
static ForestSpec gen_forest() {
  ForestSpec s; s.minl = gen(3, "min level"); s.maxl = s.minl + gen(4, "extra levels"); s.density = 1 + gen(5, "density"); s.seed = gen(10000, "forest"); s.balance = gen(2, "unbalanced") == 0; s.weights = gen(3, "partition") ? 1 + gen(1000, "weights") : 0;
  static const int sz[5] = {2, 1, 3, 4, 6}; s.nx = sz[gen(5, "nx")]; s.ny = gen(2, "ny") ? sz[gen(5, "ny")] : s.nx;
  switch (gen(4, "box")) { case 1: s.xl = -1; s.yl = -1; break; case 2: s.xl = -2; s.xu = 5; s.yl = 3; s.yu = 3.5; break; case 3: s.xl = -1000; s.xu = 1000; s.yl = 1e-3; s.yu = 2e-3; break; }
  if (gen(8, "towards a point") == 7) { s.deep = s.maxl + gen(16, "depth"); s.density = gen(2, "density"); }
  return s;
}
// refined where the hash says, up to maxl, and on the way to one point, up to the deepest level
static bool wanted(const ForestSpec& s, const p4est_quadrant_t* q) {
  if (q->level < s.maxl && qhash(q, s.seed) % 10 < (unsigned)s.density) return true; if (q->level >= s.deep) return false;
  int m = (1 << P4EST_MAXLEVEL) - 1, x = mix(s.seed + 5) & m, y = mix(s.seed + 6) & m, w = P4EST_QUADRANT_LEN(q->level); return q->x <= x && x < q->x + w && q->y <= y && y < q->y + w;
}
static int refine_cb(p4est_t* f, p4est_topidx_t, p4est_quadrant_t* q) { auto& s = *(ForestSpec*)f->user_pointer; return wanted(s, q); }
static int weight_cb(p4est_t* f, p4est_topidx_t, p4est_quadrant_t* q) { static const int w[6] = {1, 1, 2, 9, 1, 30}; return w[qhash(q, ((ForestSpec*)f->user_pointer)->weights * 77u) % 6]; }
static p4est_t* make_forest(const ForestSpec& s) {
  ForestSpec u = s; auto* conn = EF::p4est::p4est_connectivity_new_square_domain(s.xl, s.xu, s.yl, s.yu);
  p4est_t* f = p4est_new_ext(MPI_COMM_WORLD, conn, 0, s.minl, 1, 0, NULL, NULL); f->user_pointer = &u;
  p4est_refine(f, 1, refine_cb, NULL); if (s.balance) p4est_balance(f, P4EST_CONNECT_CORNER, NULL); p4est_partition(f, 0, s.weights ? weight_cb : NULL);
  bool empty = false; for (int r = 0; r < f->mpisize; r++) if (f->global_first_quadrant[r] == f->global_first_quadrant[r + 1]) empty = true;
  if (empty) p4est_partition(f, 0, NULL);
  f->user_pointer = NULL; return f;
}
static int count_leaves(const ForestSpec& s) { // enough to choose the rank count: leaves before balancing
  std::function<int(int, int, int)> n = [&](int x, int y, int l) -> int { p4est_quadrant_t q; memset(&q, 0, sizeof q); q.x = x; q.y = y; q.level = l; if (l < s.minl || wanted(s, &q)) { int h = P4EST_QUADRANT_LEN(l + 1); return n(x, y, l + 1) + n(x + h, y, l + 1) + n(x, y + h, l + 1) + n(x + h, y + h, l + 1); } return 1; };
  return n(0, 0, 0);
}
static void shrink(ForestSpec& s, int max_leaves) { while (count_leaves(s) > max_leaves) { if (s.deep > s.maxl) s.deep--; else if (s.maxl > s.minl) s.maxl--; else s.maxl = --s.minl; } }
// what the forest itself says, gathered from every rank: the leaves and who has them
struct Truth {
  std::vector<std::vector<std::string>> leaves; std::map<std::string, std::pair<int, int>> owners; std::set<std::string> leafset;
  explicit Truth(int n) : leaves(n) {}
  void take(int me, p4est_t* f) { Quiet q; leaves[me].clear(); auto* t = p4est_tree_array_index(f->trees, 0); if (f->first_local_tree < 0 || f->last_local_tree < f->first_local_tree) return; for (size_t i = 0; i < t->quadrants.elem_count; i++) leaves[me].push_back(qpath(p4est_quadrant_array_index(&t->quadrants, i))); }
  void done() { owners.clear(); leafset.clear(); for (int r = 0; r < (int)leaves.size(); r++) for (auto& l : leaves[r]) { leafset.insert(l); for (size_t k = 1; k <= l.size(); k++) { std::string p = l.substr(0, k); auto it = owners.find(p); if (it == owners.end()) owners[p] = {r, r}; else { it->second.first = std::min(it->second.first, r); it->second.second = std::max(it->second.second, r); } } } }
  bool owned(const std::string& p, int r) const { auto& o = owners.at(p); return o.first <= r && r <= o.second; }
  std::vector<std::string> pre(int r) const { std::vector<std::string> v; for (auto& kv : owners) if (owned(kv.first, r)) v.push_back(kv.first); return v; } // lexicographic order is pre-order
  std::vector<std::string> post(int r) const { auto v = pre(r); std::sort(v.begin(), v.end(), [](const std::string& a, const std::string& b) { size_t k = std::min(a.size(), b.size()); int c = a.compare(0, k, b, 0, k); if (c) return c < 0; return a.size() > b.size(); }); return v; }
};
// ------------------------------------------------------------------ payloads
template<class T> struct Pay;
template<> struct Pay<double> { static double make(unsigned h) { return (double)(int)h; } static bool same(double& a, unsigned h) { return a == (double)(int)h; } };
template<> struct Pay<std::string> { static std::string make(unsigned h) { std::string s; for (unsigned i = 0; i < h % 37; i++) s += char(h >> (i % 24)); return s; } static bool same(std::string& a, unsigned h) { return a == make(h); } };
template<> struct Pay<std::vector<int>> { static std::vector<int> make(unsigned h) { std::vector<int> v; for (unsigned i = 0; i < h % 23; i++) v.push_back(h * (i + 1)); return v; } static bool same(std::vector<int>& a, unsigned h) { return a == make(h); } };
static EF::Vector<double> vec_of(unsigned h, unsigned m) { EF::Vector<double> v(h % m); for (unsigned i = 0; i < h % m; i++) v[i] = (double)(int)mix(h + i); return v; }
static bool vec_is(EF::Vector<double>& v, unsigned h, unsigned m) { if (v.size() != h % m) return false; for (unsigned i = 0; i < h % m; i++) if (v[i] != (double)(int)mix(h + i)) return false; return true; }
template<> struct Pay<EF::Vector<double>> { static EF::Vector<double> make(unsigned h) { return vec_of(h, 31); } static bool same(EF::Vector<double>& a, unsigned h) { return vec_is(a, h, 31); } };
static void set_patch(Patch& p, unsigned h) { p.vectorU() = vec_of(h + 1, 17); p.vectorG() = vec_of(h + 2, 9); p.vectorH() = vec_of(h + 3, 11); unsigned r = 1 + h % 4, c = 1 + (h >> 3) % 5; EF::Matrix<double> t(r, c, 0.); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) t(i, j) = (double)(int)mix(h ^ (i * 8 + j)); p.matrixT() = t; }
static bool is_patch(Patch& p, unsigned h) { if (!vec_is(p.vectorU(), h + 1, 17) || !vec_is(p.vectorG(), h + 2, 9) || !vec_is(p.vectorH(), h + 3, 11)) return false; unsigned r = 1 + h % 4, c = 1 + (h >> 3) % 5; auto& t = p.matrixT(); if (t.nrows() != r || t.ncols() != c) return false; for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) if (t(i, j) != (double)(int)mix(h ^ (i * 8 + j))) return false; return true; }
template<class T> static void set_pay(T& d, unsigned h) { if constexpr (std::is_same<T, Patch>::value) set_patch(d, h); else d = Pay<T>::make(h); }
template<class T> static bool is_pay(T& d, unsigned h) { if constexpr (std::is_same<T, Patch>::value) return is_patch(d, h); else return Pay<T>::same(d, h); }
template<class T> struct Factory : EF::AbstractNodeFactory<T> {
  EF::Node<T>* createNode(T d, std::string path, int level, int a, int b) override { return new EF::Node<T>(MPI_COMM_WORLD, d, path, level, a, b); }
  EF::Node<T>* createChildNode(EF::Node<T>* p, int i, int a, int b) override { return new EF::Node<T>(MPI_COMM_WORLD, T(), p->path + char('0' + i), p->level + 1, a, b); }
  EF::Node<T>* createParentNode(std::vector<EF::Node<T>*> c, int a, int b) override { return new EF::Node<T>(MPI_COMM_WORLD, T(), c[0]->path.substr(0, c[0]->path.size() - 1), c[0]->level - 1, a, b); }
};
template<class T> struct Kit { // one rank's tree of T
  std::unique_ptr<T> root; std::shared_ptr<EF::AbstractNodeFactory<T>> fac; std::unique_ptr<EF::Quadtree<T>> tree;
  void init(const ForestSpec& s) { if constexpr (std::is_same<T, Patch>::value) { Grid g(MPI_COMM_WORLD, s.nx, s.xl, s.xu, s.ny, s.yl, s.yu); root.reset(new Patch(MPI_COMM_WORLD, g)); fac = std::make_shared<EF::FiniteVolumeNodeFactory>(MPI_COMM_WORLD); } else { root.reset(new T()); fac = std::make_shared<Factory<T>>(); } }
  void grow(p4est_t* f) { tree.reset(new EF::Quadtree<T>(MPI_COMM_WORLD, f, *root, *fac)); }
};
static MeshSpec boxspec(const ForestSpec& s) { MeshSpec m; m.xl = s.xl; m.xu = s.xu; m.yl = s.yl; m.yu = s.yu; return m; }
static void check_box(const std::string& path, const Box& b, double xl, double xu, double yl, double yu, double W, double H, int me) {
  if (std::fabs(b.xl - xl) > 1e-12 * W || std::fabs(b.xu - xu) > 1e-12 * W || std::fabs(b.yl - yl) > 1e-12 * H || std::fabs(b.yu - yu) > 1e-12 * H) fail("wrong-geometry", "rank %d: node %s spans [%.17g,%.17g]x[%.17g,%.17g], its position implies [%.17g,%.17g]x[%.17g,%.17g]", me, path.c_str(), xl, xu, yl, yu, b.xl, b.xu, b.yl, b.yu);
}
template<class T> static void check_tree(EF::Quadtree<T>& q, const Truth& t, int me, const ForestSpec& s, int n) {
  Quiet quiet; double W = std::max(std::fabs(s.xl), std::fabs(s.xu)), H = std::max(std::fabs(s.yl), std::fabs(s.yu));
  std::set<std::string> listed; for (auto& kv : q.map) listed.insert(kv.first);
  for (auto& kv : t.owners) if (t.owned(kv.first, me) && !listed.count(kv.first)) fail("wrong-tree", "rank %d lacks its node %s", me, kv.first.c_str());
  for (auto& p : listed) if (!t.owners.count(p)) fail("wrong-tree", "rank %d lists node %s, which the forest does not have", me, p.c_str());
  for (auto& kv : q.map) {
    auto& o = t.owners.at(kv.first); bool own = t.owned(kv.first, me); auto* nd = kv.second; const char* p = kv.first.c_str();
    if (own != (nd != nullptr)) fail("wrong-owner", "rank %d %s node %s, owned by ranks %d to %d", me, nd ? "has" : "lacks", p, o.first, o.second);
    if (!nd) continue;
    if (nd->path != kv.first) fail("wrong-tree", "rank %d: node %s says it is %s", me, p, nd->path.c_str());
    if (nd->level != (int)kv.first.size() - 1) fail("wrong-tree", "rank %d: node %s says its level is %d", me, p, nd->level);
    if (nd->pfirst != o.first || nd->plast != o.second) fail("wrong-owner", "rank %d: node %s says its owners are %d to %d, they are %d to %d", me, p, nd->pfirst, nd->plast, o.first, o.second);
    if (nd->leaf != (t.leafset.count(kv.first) > 0)) fail("wrong-tree", "rank %d: node %s says it is %sa leaf", me, p, nd->leaf ? "" : "not ");
    if (nd->getComm() != MPI_COMM_WORLD || nd->getRank() != me || nd->getSize() != n) fail("wrong-owner", "rank %d of %d: node %s says it lives on rank %d of %d", me, n, p, nd->getRank(), nd->getSize());
    if (!nd->isOwned()) fail("wrong-owner", "rank %d: node %s says it is not owned here", me, p);
    if (!nd->node_comm_set || nd->node_comm == MPI_COMM_NULL) fail("wrong-communicator", "rank %d: node %s has no communicator", me, p);
    int sz, rk; MPI_Comm_size(nd->node_comm, &sz); MPI_Comm_rank(nd->node_comm, &rk);
    if (sz != o.second - o.first + 1 || rk != me - o.first) fail("wrong-communicator", "rank %d: node %s is on rank %d of %d in its communicator, owners are %d to %d", me, p, rk, sz, o.first, o.second);
    MPI_Group a, b; MPI_Comm_group(nd->node_comm, &a); MPI_Comm_group(MPI_COMM_WORLD, &b); for (int i = 0; i < sz; i++) { int w; MPI_Group_translate_ranks(a, 1, &i, b, &w); if (w != o.first + i) fail("wrong-communicator", "rank %d: member %d of node %s's communicator is rank %d, expected %d", me, i, p, w, o.first + i); } MPI_Group_free(&a); MPI_Group_free(&b);
    if constexpr (std::is_same<T, Patch>::value) { auto& g = nd->data.grid(); if ((int)g.nx() != s.nx || (int)g.ny() != s.ny) fail("wrong-geometry", "rank %d: node %s has %zux%zu cells", me, p, g.nx(), g.ny()); Box bx = box_of(boxspec(s), kv.first); check_box(kv.first, bx, g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), W, H, me); double dx = (bx.xu - bx.xl) / s.nx, dy = (bx.yu - bx.yl) / s.ny; if (std::fabs(g.dx() - dx) > 1e-11 * W || std::fabs(g.dy() - dy) > 1e-11 * H) fail("wrong-geometry", "rank %d: node %s has cells of %.17g by %.17g", me, p, g.dx(), g.dy()); }
    note("nodes checked"); if (sz > 1) note("shared nodes");
  }
  EF::Node<T> plain; EF::Vector<double> vec; if (plain.getRank() != me || plain.getSize() != n || plain.node_comm_set || vec.getRank() != me || vec.getSize() != n || q.getRank() != me || q.getSize() != n || q.getComm() != MPI_COMM_WORLD) fail("wrong-owner", "rank %d of %d: an object made without a communicator says it lives on rank %d of %d", me, n, plain.getRank(), plain.getSize());
  // a node made by hand is owned by exactly the ranks it names
  for (int a = 0; a < n; a++) { EF::Node<T> x(MPI_COMM_WORLD, T(), "0", 0, a, std::min(n - 1, a + 1)); if (x.isOwned() != (me == a || me == std::min(n - 1, a + 1))) fail("wrong-owner", "rank %d: a node of ranks %d to %d says it is %sowned here", me, a, std::min(n - 1, a + 1), x.isOwned() ? "" : "not "); }
}
template<class T> static void tree_job(int n, const ForestSpec& s, int times, bool talk, bool reuse) {
  Truth t(n);
  launch(n, [&](int me) {
    Rank r; r.start(); std::vector<p4est_t*> fs; std::vector<std::unique_ptr<Kit<T>>> kits;
    for (int k = 0; k < times; k++) {
      ForestSpec u = s; if (k % 2) u.weights = u.weights ? 0 : 7; if (reuse && k) { u.seed += 7 * k; if (k % 2) { u.minl = std::max(0, s.minl - 1); u.maxl = std::max(u.minl, s.maxl - 1); } } p4est_t* f = k == 2 && !fs.empty() ? fs[0] : make_forest(u); fs.push_back(f); sync_all("forest"); t.take(me, f); sync_all("leaves"); if (me == 0) { Quiet q; t.done(); } sync_all("truth");
      void* marker = &t; f->user_pointer = marker;
      if (reuse && k) { *kits.back()->tree = EF::Quadtree<T>(MPI_COMM_WORLD, f, *kits.back()->root, *kits.back()->fac); note("trees that replace another"); } else { kits.emplace_back(new Kit<T>()); kits.back()->init(s); kits.back()->grow(f); }
      if (f->user_pointer != marker) fail("wrong-tree", "construction left another user pointer in the forest"); f->user_pointer = nullptr;
      check_tree<T>(*kits.back()->tree, t, me, s, n);
      if (talk) for (auto& kv : kits.back()->tree->map) if (kv.second) { int one = 1 << me % 30, all = 0; MPI_Allreduce(&one, &all, 1, MPI_INT, MPI_SUM, kv.second->node_comm); int want = 0; for (int i = kv.second->pfirst; i <= kv.second->plast; i++) want += 1 << i % 30; if (all != want) fail("wrong-communicator", "rank %d: the members of node %s's communicator sum to %x, expected %x", me, kv.first.c_str(), all, want); }
      sync_all("checked");
    }
    // earlier trees are still what they were
  });
}
extern "C" void workload_tree(const char*) { // C04
  ForestSpec s = gen_forest(); shrink(s, 60); int n = gen_ranks(count_leaves(s) + (gen(10, "idle ranks") == 9 ? 3 : 0), 10), kind = gen(3, "payload"), times = 1 + gen(3, "constructions"); bool talk = gen(2, "communicate"), reuse = times > 1 && gen(3, "replace the former tree") == 2;
  label(strf("%d ranks; ", n) + text(s) + strf("; %s; %d constructions%s", kind == 0 ? "patches" : kind == 1 ? "numbers" : "vectors", times, talk ? "; talking on node communicators" : "") + (reuse ? "; each replaces the former" : ""));
  if (kind == 0) tree_job<Patch>(n, s, times, talk, reuse); else if (kind == 1) tree_job<double>(n, s, times, talk, reuse); else tree_job<EF::Vector<double>>(n, s, times, talk, reuse);
}

// ------------------------------------------------------------------ C05
enum Op { PRE_NODE, PRE_DATA, POST_NODE, POST_DATA, MERGE, SPLIT, NOPS };
static const char* op_name[NOPS] = {"pre-order", "pre-order on data", "post-order", "post-order on data", "merge", "split"};
static unsigned phash(const std::string& p, unsigned salt) { unsigned h = mix(salt + 99); for (char c : p) h = mix(h * 31 + c); return h; }
template<class T> struct Walk { // one rank's tree and what its nodes hold
  Kit<T> kit; const Truth* t; int me; std::map<std::string, unsigned> val; // expected payload by owned path
  void fail_order(Op op, const std::vector<std::string>& got, const std::vector<std::string>& want) {
    Quiet q; size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    fail("wrong-visit", "rank %d: %s visits %zu nodes, expected %zu; visit %zu is %s, expected %s", me, op_name[op], got.size(), want.size(), k + 1, k < got.size() ? got[k].c_str() : "missing", k < want.size() ? want[k].c_str() : "none");
  }
  void check_data(const char* when, const char* which, const std::string& p, T& d, unsigned h) { if (!is_pay<T>(d, h)) fail("wrong-data", "rank %d: %s, %s %s does not hold the data it was given", me, when, which, p.c_str()); }
  EF::Node<T>* at(const std::string& p) { auto it = kit.tree->map.find(p); return it == kit.tree->map.end() ? nullptr : it->second; }
  // every rank evaluates the same expectation, for all nodes, so that remote children can be judged too
  void run(Op op, unsigned salt, std::map<std::string, unsigned>& all, bool prune) {
    // a pre-order callback that returns zero asks to go no deeper
    auto stops = [&](const std::string& p) { return prune && mix(phash(p, salt)) % 4 == 0; };
    std::vector<std::string> got; auto& q = *kit.tree; auto* m = this; bool set = true;
    std::map<const void*, std::string> where; { Quiet z; for (auto& kv : q.map) if (kv.second) where[&kv.second->data] = kv.first; }
    auto node = [&](EF::Node<T>* nd) { { Quiet z; got.push_back(nd->path); if (m->at(nd->path) != nd) fail("wrong-visit", "rank %d: %s hands out a node %s that is not the tree's", me, op_name[op], nd->path.c_str()); check_data(op_name[op], "node", nd->path, nd->data, all.at(nd->path)); } set_pay<T>(nd->data, phash(nd->path, salt)); return stops(nd->path) ? 0 : 1; };
    auto data = [&](T& d) { std::string p; { Quiet z; auto it = where.find(&d); if (it == where.end()) fail("wrong-visit", "rank %d: %s hands out data of no node of the tree", me, op_name[op]); p = it->second; got.push_back(p); check_data(op_name[op], "node", p, d, all.at(p)); } set_pay<T>(d, phash(p, salt)); };
    auto expect = all; 
    auto family = [&](EF::Node<T>* nd, std::vector<EF::Node<T>*> c) {
      Quiet z; got.push_back(nd->path); if (m->at(nd->path) != nd) fail("wrong-visit", "rank %d: %s hands out a node %s that is not the tree's", me, op_name[op], nd->path.c_str());
      if (c.size() != 4) fail("wrong-visit", "rank %d: %s gives %zu children for %s", me, op_name[op], c.size(), nd->path.c_str());
      for (int i = 0; i < 4; i++) {
        std::string p = nd->path + char('0' + i); if (!c[i]) fail("wrong-visit", "rank %d: %s gives no child %s", me, op_name[op], p.c_str());
        if (c[i]->path != p) fail("wrong-visit", "rank %d: %s gives %s as child %d of %s", me, op_name[op], c[i]->path.c_str(), i, nd->path.c_str());
        auto& o = t->owners.at(p); if (c[i]->level != (int)p.size() - 1 || c[i]->pfirst != o.first || c[i]->plast != o.second || c[i]->leaf != (t->leafset.count(p) > 0)) fail("wrong-data", "rank %d: %s gives child %s level %d, owners %d to %d, leaf %d", me, op_name[op], p.c_str(), c[i]->level, c[i]->pfirst, c[i]->plast, c[i]->leaf);
        if (t->owned(p, me)) { if (c[i] != m->at(p)) fail("wrong-visit", "rank %d: %s gives a copy of its own node %s", me, op_name[op], p.c_str()); } else { if (c[i] == nd) fail("wrong-visit", "child is the parent"); note("remote children"); }
        check_data(op_name[op], "child", p, c[i]->data, op == MERGE ? phash(p, salt) : all.at(p));
      }
      check_data(op_name[op], "parent", nd->path, nd->data, op == MERGE || nd->path.size() == 1 ? all.at(nd->path) : phash(nd->path, salt));
      if (op == MERGE) set_pay<T>(nd->data, phash(nd->path, salt)); else { if (nd->path.size() == 1) set_pay<T>(nd->data, phash(nd->path, salt)); for (int i = 0; i < 4; i++) set_pay<T>(c[i]->data, phash(c[i]->path, salt)); }
      return stops(nd->path) ? 0 : 1; };
    auto leaf = [&](EF::Node<T>* nd) { Quiet z; got.push_back(nd->path); if (m->at(nd->path) != nd) fail("wrong-visit", "rank %d: %s hands out a node %s that is not the tree's", me, op_name[op], nd->path.c_str()); if (!t->leafset.count(nd->path)) fail("wrong-visit", "rank %d: %s treats %s as a leaf", me, op_name[op], nd->path.c_str()); check_data(op_name[op], "leaf", nd->path, nd->data, op == MERGE || nd->path.size() == 1 ? all.at(nd->path) : phash(nd->path, salt)); set_pay<T>(nd->data, phash(nd->path, salt)); return 1; };
    switch (op) {
      case PRE_NODE: q.traversePreOrder(std::function<int(EF::Node<T>*)>(node)); break; case POST_NODE: q.traversePostOrder(std::function<int(EF::Node<T>*)>(node)); break;
      case PRE_DATA: q.traversePreOrder(std::function<void(T&)>(data)); break; case POST_DATA: q.traversePostOrder(std::function<void(T&)>(data)); break;
      case MERGE: q.merge(leaf, family); break; case SPLIT: q.split(leaf, family); break; default: break;
    }
    Quiet z; (void)set; bool pre = op == PRE_NODE || op == PRE_DATA || op == SPLIT; auto want = pre ? t->pre(me) : t->post(me);
    auto reached = [&](const std::string& p) { if (pre) for (size_t k = 1; k < p.size(); k++) if (stops(p.substr(0, k))) return false; return true; };
    if (prune) { std::vector<std::string> less; for (auto& p : want) if (reached(p)) less.push_back(p); if (less.size() < want.size()) note("pruned"); want = less; }
    if (got != want) fail_order(op, got, want);
    for (auto& kv : all) if (reached(kv.first) || (op == SPLIT && kv.first.size() > 1 && reached(kv.first.substr(0, kv.first.size() - 1)))) kv.second = phash(kv.first, salt);
    for (auto& kv : q.map) if (kv.second) check_data("after a traversal", "node", kv.first, kv.second->data, all.at(kv.first)); note(op_name[op]);
  }
};
template<class T> static void traverse_job(int n, const ForestSpec& s, const std::vector<int>& ops, int trees, bool moved) {
  Truth t(n);
  launch(n, [&](int me) {
    Rank r; r.start(); p4est_t* f = make_forest(s); t.take(me, f); sync_all("leaves"); if (me == 0) { Quiet q; t.done(); } sync_all("truth");
    std::vector<Walk<T>> w(trees); std::vector<std::map<std::string, unsigned>> all(trees);
    for (int k = 0; k < trees; k++) { w[k].t = &t; w[k].me = me; w[k].kit.init(s); w[k].kit.grow(f); if (moved) { std::unique_ptr<EF::Quadtree<T>> d(new EF::Quadtree<T>()); *d = std::move(*w[k].kit.tree); w[k].kit.tree = std::move(d); }
      Quiet q; for (auto& kv : t.owners) all[k][kv.first] = phash(kv.first, 1000 + k); for (auto& kv : w[k].kit.tree->map) if (kv.second) set_pay<T>(kv.second->data, phash(kv.first, 1000 + k)); }
    for (size_t i = 0; i < ops.size(); i++) { int k = (ops[i] / NOPS) % 2 % trees; w[k].run((Op)(ops[i] % NOPS), (unsigned)i + 1, all[k], ops[i] >= 2 * NOPS); }
    for (int k = 0; k < trees; k++) { Quiet q; for (auto& kv : w[k].kit.tree->map) if (kv.second) w[k].check_data("at the end", "node", kv.first, kv.second->data, all[k].at(kv.first)); }
  });
}
extern "C" void workload_traverse(const char*) { // C05
  ForestSpec s = gen_forest(); shrink(s, 46); s.nx = s.ny = 2; int n = gen_ranks(count_leaves(s), 8), kind = gen(5, "payload"), trees = 1 + (gen(3, "trees") == 2); bool moved = gen(3, "moved") == 2; int k = 1 + gen(5, "traversals"); std::vector<int> ops; std::string txt;
  for (int i = 0; i < k; i++) { int o = gen(NOPS, "traversal"), w = trees > 1 ? gen(2, "which tree") : 0, cut = (o == PRE_NODE || o == SPLIT) && gen(4, "stops at some nodes") == 3; ops.push_back(cut * 2 * NOPS + w * NOPS + o); txt += strf("%s%s%s%s", i ? ", " : "", op_name[o], w ? " (second tree)" : "", cut ? " stopping at some nodes" : ""); }
  static const char* names[5] = {"numbers", "patches", "vectors", "strings", "std vectors"};
  label(strf("%d ranks; ", n) + text(s) + strf("; %s; %d tree(s)%s: ", names[kind], trees, moved ? " moved" : "") + txt);
  switch (kind) { case 0: traverse_job<double>(n, s, ops, trees, moved); break; case 1: traverse_job<Patch>(n, s, ops, trees, moved); break; case 2: traverse_job<EF::Vector<double>>(n, s, ops, trees, moved); break; case 3: traverse_job<std::string>(n, s, ops, trees, moved); break; case 4: traverse_job<std::vector<int>>(n, s, ops, trees, moved); break; }
}

// ------------------------------------------------------------------ C06
struct Arrays { std::vector<std::string> leaves; };
static void check_mesh(MeshT& mesh, const MeshSpec& m, int me, std::vector<std::string>& mine, int round, bool clear) {
  auto ref = reference_leaves(m); int nx = m.nx, ny = m.my(); mine.clear();
  { Quiet q; for (auto& kv : mesh.quadtree.map) if (kv.second && kv.second->leaf) mine.push_back(kv.first); for (auto& p : mine) if (!ref.count(p)) fail("wrong-mesh", "rank %d has leaf %s; refinement by definition does not give it", me, p.c_str()); }
  std::vector<std::array<double, 2>> centres; double W = std::max(std::fabs(m.xl), std::fabs(m.xu)), H = std::max(std::fabs(m.yl), std::fabs(m.yu));
  {
    Quiet q; size_t cells = mine.size() * nx * ny; const char* r = round ? " after another refinement" : "";
    if (mesh.ncells != (int)cells || mesh.npoints != (int)(4 * cells)) fail("wrong-arrays", "rank %d%s: mesh says %d cells and %d points; its leaves have %zu cells", me, r, mesh.ncells, mesh.npoints, cells);
    if (mesh.getNumberOfCells() != std::to_string(cells) || mesh.getNumberOfPoints() != std::to_string(4 * cells)) fail("wrong-arrays", "rank %d%s: mesh reports %s cells and %s points for %zu cells", me, r, mesh.getNumberOfCells().c_str(), mesh.getNumberOfPoints().c_str(), cells);
    if (mesh.points.size() != 12 * cells || mesh.connectivity.size() != 4 * cells || mesh.offsets.size() < cells || mesh.types.size() < cells) fail("wrong-arrays", "rank %d%s: arrays of %zu coordinates, %zu corners, %zu offsets, %zu types for %zu cells", me, r, (size_t)mesh.points.size(), (size_t)mesh.connectivity.size(), (size_t)mesh.offsets.size(), (size_t)mesh.types.size(), cells);
    size_t c = 0;
    for (auto& p : mine) { Box b = ref.at(p); double dx = (b.xu - b.xl) / nx, dy = (b.yu - b.yl) / ny;
      for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++, c++) {
        if (mesh.offsets[c] != (int)(4 * (c + 1)) || mesh.types[c] != 9) fail("wrong-arrays", "rank %d%s: cell %zu has offset %d and type %d", me, r, c, mesh.offsets[c], mesh.types[c]);
        static const int ox[4] = {0, 1, 1, 0}, oy[4] = {0, 0, 1, 1};
        for (int k = 0; k < 4; k++) { int v = mesh.connectivity[4 * c + k]; if (v < 0 || v >= (int)(4 * cells)) fail("wrong-arrays", "rank %d%s: cell %zu refers to point %d of %zu", me, r, c, v, 4 * cells); double x = b.xl + (i + ox[k]) * dx, y = b.yl + (j + oy[k]) * dy; if (std::fabs(mesh.points[3 * v] - x) > 1e-11 * W || std::fabs(mesh.points[3 * v + 1] - y) > 1e-11 * H || mesh.points[3 * v + 2] != 0) fail("wrong-arrays", "rank %d%s: corner %d of cell %zu (leaf %s) is at (%g,%g,%g), expected (%g,%g,0)", me, r, k, c, p.c_str(), (double)mesh.points[3 * v], (double)mesh.points[3 * v + 1], (double)mesh.points[3 * v + 2], x, y); }
        centres.push_back({b.xl + (i + 0.5) * dx, b.yl + (j + 0.5) * dy}); } }
  }
  size_t k = 0; mesh.iterateCells([&](double x, double y) { if (k >= centres.size() || std::fabs(centres[k][0] - x) > 1e-11 * W || std::fabs(centres[k][1] - y) > 1e-11 * H) fail("wrong-visit", "rank %d: cell visit %zu of %zu is at (%g,%g)", me, k, centres.size(), x, y); k++; }); if (k != centres.size()) fail("wrong-visit", "rank %d: %zu of %zu cells are visited", me, k, centres.size());
  k = 0; mesh.iteratePatches([&](Patch& p) { if (k >= mine.size() || &mesh.quadtree.map.at(mine[k])->data != &p) fail("wrong-visit", "rank %d: patch visit %zu of %zu is another patch", me, k, mine.size()); k++; }); if (k != mine.size()) fail("wrong-visit", "rank %d: %zu of %zu patches are visited", me, k, mine.size());
  size_t had = mesh.mesh_functions.size(); mesh.addMeshFunction([](double x, double y) { return x * 1.25 + y * 3; }, "fn"); EF::Vector<double> own(3); own.name() = "own"; mesh.addMeshFunction(own);
  { Quiet q; if (mesh.mesh_functions.size() != had + 2 || mesh.mesh_functions[had + 1] != &own) fail("wrong-arrays", "rank %d: mesh functions are not kept in order", me); auto& v = *mesh.mesh_functions[had]; if (v.name() != "fn" || v.size() != centres.size()) fail("wrong-arrays", "rank %d: a cell function has %zu values for %zu cells", me, (size_t)v.size(), centres.size()); for (size_t i = 0; i < centres.size(); i++) { double w = centres[i][0] * 1.25 + centres[i][1] * 3; if (std::fabs(v[i] - w) > 1e-10 * (W + H)) fail("wrong-arrays", "rank %d: cell function is %g at cell %zu, expected %g", me, (double)v[i], i, w); } }
  if (clear) { mesh.clearMeshFunctions(); if (!mesh.mesh_functions.empty()) fail("wrong-arrays", "functions remain after clearing"); } else mesh.mesh_functions.pop_back();
}
extern "C" void workload_refine(const char*) { // C06
  int rounds = 1 + (gen(3, "refinements") == 2); std::vector<MeshSpec> ms; for (int i = 0; i < rounds; i++) ms.push_back(gen_tree_mesh(90)); for (auto& m : ms) { m.nx = ms[0].nx; m.ny = ms[0].ny; }
  size_t least = 1000; for (auto& m : ms) least = std::min(least, reference_leaves(m).size()); int n = gen_ranks((int)least + (gen(8, "idle ranks") == 7 ? 3 : 0), 10); bool clear = gen(2, "clear functions"); std::string txt; for (auto& m : ms) txt += m.text() + strf("; %zu leaves; ", reference_leaves(m).size());
  label(strf("%d ranks; ", n) + txt); std::vector<std::vector<std::vector<std::string>>> mine(rounds, std::vector<std::vector<std::string>>(n));
  launch(n, [&](int me) { Rank r; r.start(); for (int k = 0; k < rounds; k++) { if (k == 0) r.make_mesh(ms[0]); else { const MeshSpec* pm = &ms[k]; r.grid.reset(new Grid(MPI_COMM_WORLD, pm->nx, pm->xl, pm->xu, pm->my(), pm->yl, pm->yu)); r.root.reset(new Patch(MPI_COMM_WORLD, *r.grid)); r.mesh->refineByFunction([pm](double x, double y) { return pm->crit(x, y); }, 0, pm->minl, pm->maxl, *r.root, *r.factory); } check_mesh(*r.mesh, ms[k], me, mine[k][me], k, clear); } });
  for (int k = 0; k < rounds; k++) { std::map<std::string, int> who; for (int r = 0; r < n; r++) for (auto& p : mine[k][r]) { if (who.count(p)) fail("wrong-mesh", "leaf %s exists on ranks %d and %d", p.c_str(), who[p], r); who[p] = r; } auto ref = reference_leaves(ms[k]); for (auto& kv : ref) if (!who.count(kv.first)) fail("wrong-mesh", "no rank has leaf %s", kv.first.c_str()); note("leaves checked", ref.size()); }
}
