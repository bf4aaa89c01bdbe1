#include "common.h"
#include <cstdarg>
#include <algorithm>
std::string strf(const char* fmt, ...) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
// ------------------------------------------------------------------ meshes
bool MeshSpec::crit(double x, double y) const {
  for (auto& r : rects) if (r.has(x, y)) return true;
  if (slope) { double X = (x - xl) / (xu - xl), Y = (y - yl) / (yu - yl); if (std::fabs(X * sa + Y * sb - 0.5037) < sw) return true; }
  return false;
}
std::string MeshSpec::text() const {
  std::string s = strf("mesh nx=%d%s levels %d..%d box [%g,%g]x[%g,%g]", nx, ny ? strf(" ny=%d", ny).c_str() : "", minl, maxl, xl, xu, yl, yu);
  for (auto& r : rects) s += strf(" refine(%g..%g,%g..%g)", r.x0, r.x1, r.y0, r.y1);
  if (slope) s += strf(" slope(%g,%g,%g)", sa, sb, sw);
  if (before) s += std::string(used ? " (solved on before: " : " (refined before: ") + before->text() + ")";
  return s;
}
Box box_of(const MeshSpec& m, const std::string& path) {
  double x = 0, y = 0, w = 1; // exact dyadic fractions
  for (size_t i = 1; i < path.size(); i++) { int c = path[i] - '0'; w *= 0.5; if (c & 1) x += w; if (c & 2) y += w; }
  double W = m.xu - m.xl, H = m.yu - m.yl;
  return {m.xl + x * W, m.xl + (x + w) * W, m.yl + y * H, m.yl + (y + w) * H};
}
static bool wants(const MeshSpec& m, const std::string& path) {
  Box b = box_of(m, path); double dx = (b.xu - b.xl) / m.nx, dy = (b.yu - b.yl) / m.my();
  for (int i = 0; i < m.nx; i++) for (int j = 0; j < m.my(); j++) if (m.crit(b.xl + (i + 0.5) * dx, b.yl + (j + 0.5) * dy)) return true;
  return false;
}
std::map<std::string, Box> reference_leaves(const MeshSpec& m) {
  std::vector<std::string> done; std::vector<std::string> todo = {"0"};
  while (!todo.empty()) {
    std::string p = todo.back(); todo.pop_back(); int lev = (int)p.size() - 1;
    if (lev < m.minl || (lev < m.maxl && wants(m, p))) for (int c = 0; c < 4; c++) todo.push_back(p + char('0' + c));
    else done.push_back(p);
  }
  // 2:1 balance over faces and corners
  bool again = true;
  while (again) {
    again = false; std::vector<std::string> next;
    for (auto& p : done) {
      Box b = box_of(m, p); bool split = false; double e = 1e-9 * (m.xu - m.xl + m.yu - m.yl);
      for (auto& q : done) { if (q.size() < p.size() + 2) continue; Box c = box_of(m, q); if (c.xl <= b.xu + e && c.xu >= b.xl - e && c.yl <= b.yu + e && c.yu >= b.yl - e) { split = true; break; } }
      if (split) { for (int c = 0; c < 4; c++) next.push_back(p + char('0' + c)); again = true; } else next.push_back(p);
    }
    done.swap(next);
  }
  std::map<std::string, Box> r; for (auto& p : done) r[p] = box_of(m, p); return r;
}
static double odd(int n) { return (n + 0.37) / 64.0; } // never a cell centre or edge
static MeshSpec gen_mesh_once(int max_leaves, bool adaptive_ok);
MeshSpec gen_mesh(int max_leaves, bool adaptive_ok) {
  MeshSpec m = gen_mesh_once(max_leaves, adaptive_ok);
  if (sim::gen(8, "refined before") == 7) {
    MeshSpec b; b.nx = m.nx; b.xl = m.xl; b.xu = m.xu; b.yl = m.yl; b.yu = m.yu; if (sim::gen(2, "other box")) { b.xl = 2; b.xu = 4; b.yl = -1; b.yu = 0; }
    b.minl = sim::gen(3, "min level"); if (b.nx > 8 || b.nx == 7) b.minl = std::min(b.minl, 1); b.maxl = b.minl + (b.nx == 8 ? sim::gen(2, "extra levels") : 0); if (b.maxl > b.minl) { int x = sim::gen(40, "x"), y = sim::gen(40, "y"); b.rects.push_back({b.xl + (x + 0.37) / 64 * (b.xu - b.xl), b.xl + (x + 12.37) / 64 * (b.xu - b.xl), b.yl + (y + 0.37) / 64 * (b.yu - b.yl), b.yl + (y + 12.37) / 64 * (b.yu - b.yl)}); }
    m.before = std::make_shared<MeshSpec>(b); m.used = sim::gen(3, "solved on before");
  }
  return m;
}
// refined towards one point only: around one cell centre of every quadrant on the way there, which is no cell centre of any other level
static void towards_a_point(MeshSpec& m, int depth, int max_leaves) {
  unsigned h = 12345 + 2654435761u * (unsigned)sim::gen(1000, "point"); double W = m.xu - m.xl, H = m.yu - m.yl; bool corner = sim::gen(2, "inside") == 0; m.rects.clear(); m.slope = false;
  std::string path = "0"; for (int l = 0; l < m.minl + depth; l++) { h = h * 1664525u + 1013904223u; path += char('0' + (corner && l ? path[1] - '0' : (h >> 28) & 3)); }
  for (int l = m.minl; l < m.minl + depth; l++) { Box b = box_of(m, path.substr(0, l + 1)); double x = (b.xl + 0.5 / m.nx * (b.xu - b.xl)), y = (b.yl + 0.5 / m.my() * (b.yu - b.yl)), e = 1e-3 * std::ldexp(1.0, -m.minl - depth) / std::max(m.nx, m.my()); m.rects.push_back({x - e * W, x + e * W, y - e * H, y + e * H}); }
  m.maxl = m.minl + depth; while (m.maxl > m.minl && (int)reference_leaves(m).size() > max_leaves) { m.maxl--; m.rects.pop_back(); }
}
static MeshSpec gen_mesh_once(int max_leaves, bool adaptive_ok) {
  MeshSpec m; bool adaptive = adaptive_ok && sim::gen(4, "uniform or adaptive") != 0;
  switch (sim::gen(4, "box")) { case 1: m.xl = 0; m.xu = 1; m.yl = 0; m.yu = 1; break; case 2: m.xl = -2; m.xu = 2; m.yl = 1; m.yu = 2; break; case 3: m.xl = -0.5; m.xu = 1; m.yl = -1; m.yu = 3; break; }
  if (sim::gen(8, "far from the unit square") == 7) switch (sim::gen(3, "box")) { case 0: m.xl = 0; m.xu = 1e-3; m.yl = 0; m.yu = 1e-3; break; case 1: m.xl = 100; m.xu = 1100; m.yl = -2000; m.yu = 0; break; case 2: m.xl = 50; m.xu = 51; m.yl = 0; m.yu = 0.25; break; }
  if (!adaptive) { static const int n[16] = {8, 4, 2, 8, 4, 3, 6, 5, 12, 10, 8, 4, 2, 4, 2, 4}; m.nx = n[sim::gen(16, "cells per side")]; m.minl = m.maxl = 1 + sim::gen(m.nx > 8 ? 1 : m.nx >= 6 ? 2 : 3, "level"); while ((1 << (2 * m.minl)) > max_leaves && m.minl > 0) m.maxl = --m.minl; return m; }
  m.nx = 8; if (sim::gen(20, "cells per side") == 19) { m.nx = 10 + 2 * sim::gen(2, "cells per side"); max_leaves = std::min(max_leaves, 7); }
  m.minl = sim::gen(3, "min level"); m.maxl = m.minl + 1 + sim::gen(3 - m.minl > 1 ? 3 - m.minl : 1, "extra levels");
  double W = m.xu - m.xl, H = m.yu - m.yl; int k = sim::gen(3, "regions");
  for (int i = 0; i <= k; i++) { int x = sim::gen(56, "x"), y = sim::gen(56, "y"), w = 4 + sim::gen(12, "w"), h = 4 + sim::gen(12, "h"); m.rects.push_back({m.xl + odd(x) * W, m.xl + odd(x + w) * W, m.yl + odd(y) * H, m.yl + odd(y + h) * H}); }
  while (m.maxl > m.minl && (int)reference_leaves(m).size() > max_leaves) { if (m.rects.size() > 1) m.rects.pop_back(); else if (m.minl > 0 && m.maxl - m.minl > 1) m.minl--; else m.maxl--; }
  if (sim::gen(8, "towards a point") == 7) { m.minl = sim::gen(2, "min level"); towards_a_point(m, 1 + sim::gen(6, "depth"), max_leaves); }
  return m;
}
MeshSpec gen_tree_mesh(int max_leaves) {
  MeshSpec m; static const int sz[6] = {4, 2, 1, 3, 8, 5}; m.nx = sz[sim::gen(6, "cells per side")]; if (sim::gen(3, "different sides") == 2) m.ny = sz[sim::gen(6, "cells per other side")];
  switch (sim::gen(5, "box")) { case 1: m.xl = 0; m.xu = 1; m.yl = 0; m.yu = 1; break; case 2: m.xl = -2; m.xu = 2; m.yl = 1; m.yu = 2; break; case 3: m.xl = -0.5; m.xu = 1; m.yl = -1; m.yu = 3; break; case 4: m.xl = 10; m.xu = 10.5; m.yl = -100; m.yu = 100; break; }
  if (sim::gen(12, "large patches") == 11) { m.nx = 16 + sim::gen(50, "cells per side"); if (m.ny) m.ny = 16 + sim::gen(50, "cells per other side"); max_leaves = std::max(4, max_leaves / 6); }
  m.minl = sim::gen(4, "min level"); m.maxl = m.minl + sim::gen(4, "extra levels"); double W = m.xu - m.xl, H = m.yu - m.yl; int k = sim::gen(4, "regions");
  for (int i = 0; i < k; i++) { int x = sim::gen(60, "x"), y = sim::gen(60, "y"), w = 1 + sim::gen(20, "w"), h = 1 + sim::gen(20, "h"); m.rects.push_back({m.xl + odd(x) * W, m.xl + odd(x + w) * W, m.yl + odd(y) * H, m.yl + odd(y + h) * H}); }
  if (sim::gen(4, "slope") == 3) { m.slope = true; m.sa = 0.31 + sim::gen(7, "a") * 0.1; m.sb = 0.27 + sim::gen(7, "b") * 0.1; m.sw = 0.0113 + 0.01 * sim::gen(6, "w"); }
  auto big = [&] { long n = 1L << (2 * m.minl); return n > max_leaves || (m.maxl > m.minl && (int)reference_leaves(m).size() > max_leaves); };
  while (big()) { if (m.maxl > m.minl) m.maxl--; else { m.minl--; m.maxl = m.minl; } }
  if (sim::gen(8, "towards a point") == 7) { m.minl = std::min(m.minl, sim::gen(3, "min level")); towards_a_point(m, 1 + sim::gen(17, "depth"), max_leaves); }
  return m;
}
int gen_ranks(int nleaves, int maxp) { if (nleaves > maxp && sim::gen(16, "many ranks") == 15) maxp += 8; int m = std::min(nleaves, maxp); static const int pref[6] = {2, 3, 1, 4, 5, 6}; std::vector<int> c; for (int p : pref) if (p <= m) c.push_back(p); for (int p = 7; p <= m; p++) c.push_back(p); return c[sim::gen((int)c.size(), "ranks")]; }

// ------------------------------------------------------------------ coefficients
double f_alpha(int k, double x, double y) { switch (k) { case 1: return 2.5; case 2: return 1.5 + 0.5 * std::sin(x + 2 * y); case 3: return 1 + x * x + 0.5 * y * y; case 4: return 1e-12; case 5: return 1e9; } return 1; }
double f_beta(int k, double x, double y) { switch (k) { case 1: return 0.75; case 2: return 6 + 0.5 * x - 0.25 * y; case 3: return 4 + 0.75 * y; case 4: return 2 + std::cos(x * y); } return 1; }
double f_lambda(int k, double x, double y) { switch (k) { case 1: return -1; case 2: return -2 - x * x; case 3: return -40; case 10: return -10; case 11: return -250; case 12: return -4000; } return 0; }
static void beta_slope(int k, double& bx, double& by) { bx = by = 0; if (k == 2) { bx = 0.5; by = -0.25; } else if (k == 3) by = 0.75; }
Coef gen_coef(bool constant_only) { Coef c; if (constant_only) { c.alpha = sim::gen(2, "alpha"); c.beta = sim::gen(2, "beta"); c.lambda = sim::gen(2, "lambda"); } else { c.alpha = sim::gen(4, "alpha"); c.beta = sim::gen(5, "beta"); c.lambda = sim::gen(4, "lambda"); } if (sim::gen(8, "scale of the equation") == 7) { c.alpha = 4 + sim::gen(2, "alpha"); c.lambda = 0; } return c; }
Data gen_data(bool allow_bc) {
  Data d; d.kind = sim::gen(5, "data"); d.k = 1 + sim::gen(4, "wave number"); d.c0 = 1 + sim::gen(3, "c0"); d.c1 = 2 - sim::gen(5, "c1"); d.c2 = 3 - sim::gen(5, "c2");
  if (allow_bc && sim::gen(3, "boundary kinds")) for (int s = 0; s < 4; s++) { d.bc[s] = sim::gen(4, "side"); d.sc[s] = sim::gen(5, "coefficients"); }
  return d;
}
double exact_linear(const Data& d, double x, double y) { return d.scale * (d.c0 + d.c1 * x + d.c2 * y); }
double rhs_of(const Problem& p, const Data& d, double x, double y) {
  double es = p.coef.alpha >= 4 ? f_alpha(p.coef.alpha, x, y) : 1.0; // a very large or small equation has a load of that size
  switch (d.kind) {
    case 0: { double bx, by; beta_slope(p.coef.beta, bx, by); return d.scale * f_alpha(p.coef.alpha, x, y) * (bx * d.c1 + by * d.c2) + f_lambda(p.coef.lambda, x, y) * exact_linear(d, x, y); }
    case 1: return es * d.scale * (3 * std::sin(d.k * x + 1) * std::cos(2 * y - d.k) + d.c0);
    case 3: return es * d.scale * (std::sin(37 * d.k * x + 11 * y * y) > 0.3 ? 5.0 : -2.0) * d.c0;
  }
  return 0;
}
double bnd_of(const Problem& p, const Data& d, int s, double x, double y, double* a, double* b) {
  int kind = d.bc[s];
  if (kind == 3) { double t = std::sin(7 * x + 5 * y); kind = t > 0.2 ? 0 : t < -0.3 ? 1 : 2; }
  double sg = (s == 0 || s == 2) ? -1.0 : 1.0; // Robin: outward sign keeps it well posed
  switch (kind) { case 0: *a = 1; *b = 0; break; case 1: *a = 0; *b = 1; break; default: *a = 1.5; *b = 0.75 * sg; }
  double fa = 1, fb = 1; // any multiple of a condition is a condition; Robin may vary along the side as long as its sign stays
  switch (d.sc[s]) { case 1: fa = fb = kind == 1 ? sg : 2.5; break; case 2: fa = 0.6 + 0.4 * std::sin(9 * x + 4 * y); fb = 1.2 + 0.7 * std::cos(5 * x - 8 * y); break; case 3: fa = fb = -3; break; case 4: fa = 0.04; fb = 20; break; }
  *a *= fa; *b *= fb * d.unit;
  if (d.kind == 0) return *a * exact_linear(d, x, y) + *b * d.scale * (s < 2 ? d.c1 : d.c2);
  if (d.kind == 4) return 0;
  return d.scale * (std::cos(d.k * x - y) + 0.3 * d.c1 * x * y + d.c2 * (s + 1));
}
std::string text(const Data& d) { return (d.scale != 1 ? strf("scale %g ", d.scale) : std::string()) + strf("data kind %d (c %g %g %g, k %g) bc %d%d%d%d sc %d%d%d%d", d.kind, d.c0, d.c1, d.c2, d.k, d.bc[0], d.bc[1], d.bc[2], d.bc[3], d.sc[0], d.sc[1], d.sc[2], d.sc[3]); }
std::string text(const Problem& p) { return p.mesh.text() + strf("; alpha %d beta %d lambda %d; ", p.coef.alpha, p.coef.beta, p.coef.lambda) + text(p.data) + strf("; solver %s cache %d homogeneous %d", p.fish ? "hstcrt" : "five-point", p.cache, p.homog); }

// ------------------------------------------------------------------ the reference: own dense algebra, own recursion
typedef std::vector<double> V;
struct M { int r = 0, c = 0; V a; M() {} M(int r, int c) : r(r), c(c), a((size_t)r * c, 0.0) {} double& operator()(int i, int j) { return a[(size_t)i * c + j]; } double operator()(int i, int j) const { return a[(size_t)i * c + j]; } };
static M mul(const M& A, const M& B) { M C(A.r, B.c); for (int i = 0; i < A.r; i++) for (int k = 0; k < A.c; k++) { double v = A(i, k); if (v != 0) { const double* b = &B.a[(size_t)k * B.c]; double* c = &C.a[(size_t)i * C.c]; for (int j = 0; j < B.c; j++) c[j] += v * b[j]; } } return C; }
static V mul(const M& A, const V& x) { V y(A.r, 0.0); for (int i = 0; i < A.r; i++) { double s = 0; for (int j = 0; j < A.c; j++) s += A(i, j) * x[j]; y[i] = s; } return y; }
struct LU { M a; std::vector<int> p; LU() {} explicit LU(M m) : a(std::move(m)), p(a.r) {
    int n = a.r; for (int i = 0; i < n; i++) p[i] = i;
    for (int k = 0; k < n; k++) { int b = k; for (int i = k + 1; i < n; i++) if (std::fabs(a(i, k)) > std::fabs(a(b, k))) b = i; if (b != k) { for (int j = 0; j < n; j++) std::swap(a(k, j), a(b, j)); std::swap(p[k], p[b]); }
      double d = a(k, k); for (int i = k + 1; i < n; i++) { double f = a(i, k) / d; if (f == 0) continue; a(i, k) = f; double* x = &a.a[(size_t)i * n]; const double* y = &a.a[(size_t)k * n]; for (int j = k + 1; j < n; j++) x[j] -= f * y[j]; } } }
  V solve(const V& b) const { int n = a.r; V x(n); for (int i = 0; i < n; i++) { double s = b[p[i]]; for (int j = 0; j < i; j++) s -= a(i, j) * x[j]; x[i] = s; } for (int i = n - 1; i >= 0; i--) { double s = x[i]; for (int j = i + 1; j < n; j++) s -= a(i, j) * x[j]; x[i] = s / a(i, i); } return x; }
  M solve(const M& B) const { int n = a.r; M X(n, B.c); for (int i = 0; i < n; i++) for (int c = 0; c < B.c; c++) X(i, c) = B(p[i], c);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double f = a(i, j); if (f != 0) for (int c = 0; c < B.c; c++) X(i, c) -= f * X(j, c); }
    for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) { double f = a(i, j); if (f != 0) for (int c = 0; c < B.c; c++) X(i, c) -= f * X(j, c); } for (int c = 0; c < B.c; c++) X(i, c) /= a(i, i); } return X; } };
struct RefSolver::Impl {
  Problem prob; int nx; std::function<double(double, double)>* load = nullptr;
  struct N { std::string path; Box b; bool leaf = false; N* c[4] = {0, 0, 0, 0}; int size = 0, own = 0, coarsened = 0; M T, S, Hm; LU lu; LU A; V h, w, g, f; V u; };
  N* root = nullptr; std::vector<std::unique_ptr<N>> all;
  static M L21(int nc) { M m(nc, 2 * nc); for (int i = 0; i < nc; i++) m(i, 2 * i) = m(i, 2 * i + 1) = 0.5; return m; }
  static M L12(int nf) { int nc = nf / 2; M m(nf, nc); for (int i = 0; i < nf; i++) { int k = i / 2;
      if (i == 0) { m(0, 0) = 1.40625; m(0, 1) = -0.5625; m(0, 2) = 0.15625; } else if (i == nf - 1) { m(i, nc - 1) = 1.40625; m(i, nc - 2) = -0.5625; m(i, nc - 3) = 0.15625; }
      else if (i % 2) { m(i, k) = 0.75; m(i, k + 1) = 0.25; } else { m(i, k) = 0.75; m(i, k - 1) = 0.25; } } return m; }
  static M four(const M& a) { M m(4 * a.r, 4 * a.c); for (int s = 0; s < 4; s++) for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) m(s * a.r + i, s * a.c + j) = a(i, j); return m; }
  void leaf_setup(N* n) {
    int k = nx, K = k * k; M A(K, K); double dx = (n->b.xu - n->b.xl) / k, dy = (n->b.yu - n->b.yl) / k;
    bw.assign(0, 0); M Bd(K, 4 * k); auto& c = prob.coef;
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) {
      int e = j + i * k; double x = n->b.xl + (i + 0.5) * dx, y = n->b.yl + (j + 0.5) * dy;
      double al = prob.fish ? 1 : f_alpha(c.alpha, x, y); auto be = [&](double X, double Y) { return prob.fish ? 1.0 : f_beta(c.beta, X, Y); };
      double w = al * be(x - dx / 2, y) / (dx * dx), E = al * be(x + dx / 2, y) / (dx * dx), s = al * be(x, y - dy / 2) / (dy * dy), nn = al * be(x, y + dy / 2) / (dy * dy);
      double d = -(w + E + s + nn) + f_lambda(c.lambda, prob.fish ? 0 : x, prob.fish ? 0 : y);
      if (i > 0) A(e, e - k) += w; else { d -= w; Bd(e, j) = 2 * w; }
      if (i < k - 1) A(e, e + k) += E; else { d -= E; Bd(e, k + j) = 2 * E; }
      if (j > 0) A(e, e - 1) += s; else { d -= s; Bd(e, 2 * k + i) = 2 * s; }
      if (j < k - 1) A(e, e + 1) += nn; else { d -= nn; Bd(e, 3 * k + i) = 2 * nn; }
      A(e, e) = d;
    }
    n->A = LU(A); n->Hm = Bd; M U = n->A.solve(Bd); // u = -U g
    M T(4 * k, 4 * k);
    for (int g = 0; g < 4 * k; g++) for (int q = 0; q < k; q++) for (int s = 0; s < 4; s++) T(s * k + q, g) = slope(s, q, dx, dy, -U(cell(s, q), g), g == s * k + q ? 1.0 : 0.0);
    n->T = T; n->size = n->own = k;
  }
  V bw;
  int cell(int s, int q) { int k = nx; return s == 0 ? q : s == 1 ? q + (k - 1) * k : s == 2 ? q * k : (k - 1) + q * k; }
  static double slope(int s, int, double dx, double dy, double u, double g) { switch (s) { case 0: return (u - g) / (dx / 2); case 1: return (g - u) / (dx / 2); case 2: return (u - g) / (dy / 2); } return (g - u) / (dy / 2); }
  // parent side order: W(a,g) E(b,o) S(a,b) N(g,o); interior order: a|g, b|o, a|b, g|o
  void merge_setup(N* n) {
    int m = n->c[0]->own; for (int i = 1; i < 4; i++) m = std::min(m, n->c[i]->own);
    for (int i = 0; i < 4; i++) { N* c = n->c[i]; c->size = c->own; c->coarsened = 0; while (c->size > m) { M R = four(L21(c->size / 2)), P = four(L12(c->size)); c->T = mul(mul(R, c->T), P); c->size /= 2; c->coarsened++; } }
    // local numbering of the 8 exterior and 4 interior segments
    // child sides: W E S N -> segment (ext: 0..7, int: 8..11)
    static const int seg[4][4] = {{0, 10, 4, 8}, {10, 2, 5, 9}, {1, 11, 8, 6}, {11, 3, 9, 7}};
    M X(4 * m, 4 * m), Rr(4 * m, 8 * m);
    // continuity of the derivative on every interior segment: lower/left side value minus upper/right side value = 0
    for (int c = 0; c < 4; c++) for (int s = 0; s < 4; s++) { int I = seg[c][s]; if (I < 8) continue; double sg = (s == 1 || s == 3) ? 1.0 : -1.0;
      for (int t = 0; t < 4; t++) { int J = seg[c][t]; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double v = sg * n->c[c]->T(s * m + i, t * m + j); if (J >= 8) X((I - 8) * m + i, (J - 8) * m + j) += v; else Rr((I - 8) * m + i, J * m + j) -= v; } } }
    n->lu = LU(X); n->S = n->lu.solve(Rr);
    M T(8 * m, 8 * m); M Hm(8 * m, 4 * m);
    for (int c = 0; c < 4; c++) for (int s = 0; s < 4; s++) { int I = seg[c][s]; if (I >= 8) continue; for (int t = 0; t < 4; t++) { int J = seg[c][t]; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double v = n->c[c]->T(s * m + i, t * m + j); if (J < 8) T(I * m + i, J * m + j) += v; else Hm(I * m + i, (J - 8) * m + j) += v; } } }
    M HS = mul(Hm, n->S); for (size_t i = 0; i < T.a.size(); i++) T.a[i] += HS.a[i];
    n->T = T; n->Hm = Hm; n->own = n->size = 2 * m;
  }
  void setup(N* n) { if (n->leaf) { leaf_setup(n); return; } for (int i = 0; i < 4; i++) setup(n->c[i]); merge_setup(n); }
  void up(N* n, const Data& d, bool zero) {
    if (n->leaf) { int k = nx; double dx = (n->b.xu - n->b.xl) / k, dy = (n->b.yu - n->b.yl) / k; n->f.assign(k * k, 0); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) n->f[j + i * k] = load && *load ? (*load)(n->b.xl + (i + 0.5) * dx, n->b.yl + (j + 0.5) * dy) : zero ? 0 : rhs_of(prob, d, n->b.xl + (i + 0.5) * dx, n->b.yl + (j + 0.5) * dy); V u = n->A.solve(n->f); n->h.assign(4 * k, 0); for (int s = 0; s < 4; s++) for (int q = 0; q < k; q++) n->h[s * k + q] = slope(s, q, dx, dy, u[cell(s, q)], 0); return; }
    for (int i = 0; i < 4; i++) up(n->c[i], d, zero);
    int m = n->own / 2; static const int seg[4][4] = {{0, 10, 4, 8}, {10, 2, 5, 9}, {1, 11, 8, 6}, {11, 3, 9, 7}};
    V r(4 * m, 0), hh(8 * m, 0);
    for (int c = 0; c < 4; c++) { V h = n->c[c]->h; int sz = n->c[c]->own; while (sz > m) { h = mul(four(L21(sz / 2)), h); sz /= 2; } for (int s = 0; s < 4; s++) { int I = seg[c][s]; for (int i = 0; i < m; i++) { double v = h[s * m + i]; if (I < 8) hh[I * m + i] += v; else r[(I - 8) * m + i] -= ((s == 1 || s == 3) ? 1.0 : -1.0) * v; } } }
    n->w = n->lu.solve(r); V e = mul(n->Hm, n->w); for (int i = 0; i < 8 * m; i++) hh[i] += e[i]; n->h = hh;
  }
  void down(N* n, V g) {
    if (n->leaf) { V b = n->f, e = mul(n->Hm, g); for (size_t i = 0; i < b.size(); i++) b[i] -= e[i]; n->u = n->A.solve(b); return; }
    int m = n->own / 2; V in = mul(n->S, g); for (int i = 0; i < 4 * m; i++) in[i] += n->w[i];
    static const int seg[4][4] = {{0, 10, 4, 8}, {10, 2, 5, 9}, {1, 11, 8, 6}, {11, 3, 9, 7}};
    for (int c = 0; c < 4; c++) { V q(4 * m); for (int s = 0; s < 4; s++) { int I = seg[c][s]; for (int i = 0; i < m; i++) q[s * m + i] = I < 8 ? g[I * m + i] : in[(I - 8) * m + i]; } int sz = m; while (sz < n->c[c]->own) { q = mul(four(L12(2 * sz)), q); sz *= 2; } down(n->c[c], q); }
  }
};
// NOTE: a non-root node's size as seen by its parent may be reduced; `own` is its own resolution.
RefSolver::RefSolver(const Problem& prob, const std::map<std::string, Box>& leaves) : p(new Impl) {
  p->prob = prob; p->nx = prob.mesh.nx; std::map<std::string, Impl::N*> at;
  std::function<Impl::N*(const std::string&)> get = [&](const std::string& s) { auto& n = at[s]; if (!n) { p->all.emplace_back(new Impl::N); n = p->all.back().get(); n->path = s; n->b = box_of(prob.mesh, s); if (s.size() > 1) get(s.substr(0, s.size() - 1))->c[s.back() - '0'] = n; } return n; };
  for (auto& kv : leaves) { auto* n = get(kv.first); n->leaf = true; } p->root = get("0"); p->setup(p->root);
}
Field RefSolver::solve2(const Data& rd, const Data& d, bool zero) {
  auto* n = p->root; p->load = &load; p->up(n, rd, zero); int m = n->own; V r(4 * m), a(4 * m), b(4 * m); double dx = (n->b.xu - n->b.xl) / m, dy = (n->b.yu - n->b.yl) / m;
  for (int s = 0; s < 4; s++) for (int i = 0; i < m; i++) { double x = s == 0 ? n->b.xl : s == 1 ? n->b.xu : n->b.xl + (i + 0.5) * dx, y = s == 2 ? n->b.yl : s == 3 ? n->b.yu : n->b.yl + (i + 0.5) * dy; int k = s * m + i; r[k] = bnd_of(p->prob, d, s, x, y, &a[k], &b[k]); }
  M A(4 * m, 4 * m); V q(4 * m); for (int i = 0; i < 4 * m; i++) { q[i] = r[i] - b[i] * n->h[i]; for (int j = 0; j < 4 * m; j++) A(i, j) = b[i] * n->T(i, j) + (i == j ? a[i] : 0); }
  p->down(n, LU(A).solve(q));
  Field f; for (auto& x : p->all) if (x->leaf) { Leaf l; l.u = x->u; l.box = x->b; f[x->path] = l; } return f;
}
double max_abs(const Field& f) { double m = 0; for (auto& kv : f) for (double v : kv.second.u) m = std::max(m, std::fabs(v)); return m; }
void compare(const char* what, const Field& got, const Field& want, double rel, const char* kind, double floor) {
  if (got.size() != want.size()) sim::fail(kind, "%s: %zu leaves where %zu are expected", what, got.size(), want.size());
  double tol = rel * (floor + max_abs(want)); double worst = 0; std::string wp; size_t wi = 0; double wg = 0, ww = 0;
  for (auto& kv : want) { auto it = got.find(kv.first); if (it == got.end()) sim::fail(kind, "%s: leaf %s is missing", what, kv.first.c_str()); auto& g = it->second.u; if (g.size() != kv.second.u.size()) sim::fail(kind, "%s: leaf %s holds %zu values where %zu are expected", what, kv.first.c_str(), g.size(), kv.second.u.size());
    for (size_t i = 0; i < g.size(); i++) { double e = std::fabs(g[i] - kv.second.u[i]); if (!(e <= worst)) { worst = e; wp = kv.first; wi = i; wg = g[i]; ww = kv.second.u[i]; if (!(e == e)) goto out; } } }
out:
  if (!(worst <= tol)) sim::fail(kind, "%s: leaf %s (rank %d) cell %zu is %.12g, expected %.12g (error %.3g, tolerance %.3g)", what, wp.c_str(), got.at(wp).rank, wi, wg, ww, worst, tol);
}
void check_tiling(const MeshSpec& m, const Field& f, int nranks) { auto ref = reference_leaves(m); if (f.size() != ref.size()) sim::fail("wrong-mesh", "%zu leaves over %d ranks, expected %zu", f.size(), nranks, ref.size()); for (auto& kv : ref) if (!f.count(kv.first)) sim::fail("wrong-mesh", "leaf %s is missing", kv.first.c_str()); }

// ------------------------------------------------------------------ running it
void Rank::start() { app.reset(new EF::EllipticForestApp(&argc, &argv)); }
void Rank::options(bool cache, bool homog) { app->options.setOption("cache-operators", cache); app->options.setOption("homogeneous-rhs", homog); }
void Rank::make_mesh(const MeshSpec& m) {
  mesh.reset(new MeshT{});
  auto refine = [&](const MeshSpec& s) {
    bool same = m.before && root && s.xl == m.before->xl && s.xu == m.before->xu && s.yl == m.before->yl && s.yu == m.before->yu; std::unique_ptr<Grid> og; std::unique_ptr<Patch> op; std::unique_ptr<EF::FiniteVolumeNodeFactory> of;
    if (!same) { og = std::move(grid); op = std::move(root); of = std::move(factory); grid.reset(new Grid(MPI_COMM_WORLD, s.nx, s.xl, s.xu, s.my(), s.yl, s.yu)); root.reset(new Patch(MPI_COMM_WORLD, *grid)); factory.reset(new EF::FiniteVolumeNodeFactory(MPI_COMM_WORLD)); }
    const MeshSpec* pm = &s; mesh->refineByFunction([pm](double x, double y) { return pm->crit(x, y); }, 0, s.minl, s.maxl, *root, *factory);
  };
  if (m.before) {
    root.reset(); refine(*m.before); int size; MPI_Comm_size(MPI_COMM_WORLD, &size); bool room; { sim::Quiet q; room = (int)reference_leaves(*m.before).size() >= size; }
    if (m.used && room) { Problem p; p.mesh = *m.before; p.data.kind = 1; make_solver(p); build(); upwards(p, p.data); solve(p, p.data); sim::note("solved on an earlier refinement"); if (m.used == 2) keep_hps = true; else { old_hps.push_back(std::move(hps)); } }
  }
  refine(m);
}
void Rank::make_mesh_weighted(const MeshSpec& m, int seed) {
  grid.reset(new Grid(MPI_COMM_WORLD, m.nx, m.xl, m.xu, m.my(), m.yl, m.yu)); root.reset(new Patch(MPI_COMM_WORLD, *grid)); factory.reset(new EF::FiniteVolumeNodeFactory(MPI_COMM_WORLD));
  struct U { const MeshSpec* m; int seed; } u{&m, seed}; auto* conn = EF::p4est::p4est_connectivity_new_square_domain(m.xl, m.xu, m.yl, m.yu);
  p4est_t* f = p4est_new_ext(MPI_COMM_WORLD, conn, 0, m.minl, 1, 0, NULL, NULL); f->user_pointer = &u;
  p4est_refine(f, 1, [](p4est_t* f, p4est_topidx_t t, p4est_quadrant_t* q) -> int { auto& m = *((U*)f->user_pointer)->m; if (q->level >= m.maxl) return 0; double a[3], b[3]; p4est_qcoord_to_vertex(f->connectivity, t, q->x, q->y, a); auto l = P4EST_QUADRANT_LEN(q->level); p4est_qcoord_to_vertex(f->connectivity, t, q->x + l, q->y + l, b); double dx = (b[0] - a[0]) / m.nx, dy = (b[1] - a[1]) / m.nx; for (int i = 0; i < m.nx; i++) for (int j = 0; j < m.nx; j++) if (m.crit(a[0] + (i + 0.5) * dx, a[1] + (j + 0.5) * dy)) return 1; return 0; }, NULL);
  p4est_balance(f, P4EST_CONNECT_CORNER, NULL);
  p4est_partition(f, 0, [](p4est_t* f, p4est_topidx_t, p4est_quadrant_t* q) -> int { unsigned h = (unsigned)(q->x >> 20) * 2654435761u ^ (unsigned)(q->y >> 20) * 40503u ^ (unsigned)((U*)f->user_pointer)->seed * 97u; h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15; static const int w[6] = {1, 1, 2, 9, 1, 30}; return w[h % 6]; });
  bool empty = false; for (int r = 0; r < f->mpisize; r++) if (f->global_first_quadrant[r] == f->global_first_quadrant[r + 1]) empty = true;
  if (empty) p4est_partition(f, 0, NULL);
  f->user_pointer = NULL; mesh.reset(new MeshT(MPI_COMM_WORLD, f, *root, *factory));
}
void Rank::called() { calls++; if (throw_at && calls == throw_at) throw CallbackFailed(); }
void Rank::set_functions(const Problem& p) { Coef c = p.coef; auto* me = this; solver->alpha_function = [c, me](double x, double y) { return f_alpha(c.alpha, x, y); }; solver->beta_function = [c, me](double x, double y) { return f_beta(c.beta, x, y); }; solver->lambda_function = [c, me](double x, double y) { me->called(); return f_lambda(c.lambda, x, y); }; }
void Rank::new_hps() { if (hps) old_hps.push_back(std::move(hps)); hps.reset(new HPS(MPI_COMM_WORLD, *mesh, *solver)); }
void Rank::make_solver(const Problem& p) {
  if (keep_hps) { keep_hps = false; solver->solver_type = p.fish ? EF::FiniteVolumeSolverType::FISHPACK90 : EF::FiniteVolumeSolverType::FivePointStencil; set_functions(p); return; }
  if (solver) old_solver.push_back(std::move(solver));
  solver.reset(new Solver{}); solver->solver_type = p.fish ? EF::FiniteVolumeSolverType::FISHPACK90 : EF::FiniteVolumeSolverType::FivePointStencil;
  set_functions(p); new_hps(); hps->setupStage();
}
void Rank::build() { hps->buildStage(); }
void Rank::upwards(const Problem& p, const Data& d) { const Problem* q = &p; const Data* e = &d; auto* me = this; hps->upwardsStage([q, e, me](double x, double y) -> double { me->called(); return rhs_of(*q, *e, x, y); }); }
void Rank::upwards_patch(const Problem& p, const Data& d) {
  auto* me = this; hps->upwardsStage([&p, &d, me](Patch& patch) { auto& g = patch.grid(); int nx = g.nx(), ny = g.ny(); EF::Vector<double> f(nx * ny); for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) f[j + i * ny] = rhs_of(p, d, g(0, i), g(1, j)); me->called(); patch.vectorF() = f; });
}
void Rank::solve(const Problem& p, const Data& d) { const Problem* q = &p; const Data* e = &d; auto* me = this; hps->solveStage([q, e, me](int s, double x, double y, double* a, double* b) -> double { me->bnd_calls++; me->called(); return bnd_of(*q, *e, s, x, y, a, b); }); }
void Rank::solve_root(const Problem& p, const Data& d) {
  auto* me = this; hps->solveStage([&p, &d, me](Patch& patch) { auto& g = patch.grid(); int m = g.nx(); EF::Vector<double> v(4 * m); double a, b; for (int s = 0; s < 4; s++) for (int i = 0; i < m; i++) { double x = s == 0 ? g.xLower() : s == 1 ? g.xUpper() : g(0, i), y = s == 2 ? g.yLower() : s == 3 ? g.yUpper() : g(1, i); double g = bnd_of(p, d, s, x, y, &a, &b); v[s * m + i] = g / a; } me->bnd_calls++; me->called(); patch.vectorG() = v; });
}
void Rank::collect(Field& out, std::mutex*) {
  std::vector<QNode*> mine; mesh->quadtree.traversePreOrder([&](QNode* n) { if (n->leaf) mine.push_back(n); return 1; });
  sim::Quiet q;
  for (auto* n : mine) { if (out.count(n->path)) sim::fail("wrong-mesh", "leaf %s exists on ranks %d and %d", n->path.c_str(), out[n->path].rank, sim::cur_rank()); Leaf& l = out[n->path]; l.rank = sim::cur_rank(); auto& v = n->data.vectorU(); l.u.assign(v.data().begin(), v.data().end()); auto& gv = n->data.vectorG(); l.g.assign(gv.data().begin(), gv.data().end()); auto& g = n->data.grid(); l.box = {g.xLower(), g.xUpper(), g.yLower(), g.yUpper()}; }
}
Rank::~Rank() { hps.reset(); old_hps.clear(); old_solver.clear(); solver.reset(); mesh.reset(); factory.reset(); root.reset(); grid.reset(); app.reset(); }
