// Stand-ins for two third-party functions this sandbox does not have.
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <vector>
#include <cstring>
// p4est_search_reorder (p4est > 2.8) without reordering: depth-first search of the local part of every tree.
static void rec(p4est_t* p, p4est_topidx_t t, p4est_quadrant_t* q, p4est_tree_t* tree, size_t lo, size_t hi, p4est_search_local_t pre, p4est_search_local_t post) {
  if (lo >= hi) return;
  p4est_quadrant_t* first = p4est_quadrant_array_index(&tree->quadrants, lo);
  p4est_locidx_t ln = -1; p4est_quadrant_t* arg = q;
  if (hi - lo == 1 && p4est_quadrant_is_equal(first, q)) { ln = tree->quadrants_offset + lo; arg = first; }
  if (pre && !pre(p, t, arg, ln, NULL)) return;
  if (ln < 0) {
    p4est_quadrant_t c[4]; p4est_quadrant_childrenv(q, c); size_t a = lo;
    for (int i = 0; i < 4; i++) {
      size_t b = a;
      while (b < hi && p4est_quadrant_ancestor_id(p4est_quadrant_array_index(&tree->quadrants, b), q->level + 1) == i) b++;
      rec(p, t, &c[i], tree, a, b, pre, post); a = b;
    }
  }
  if (post) post(p, t, arg, ln, NULL);
}
extern "C" void p4est_search_reorder(p4est_t* p, int, void*, p4est_search_local_t pre, p4est_search_local_t post, p4est_search_local_t, sc_array_t*) {
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; t++) {
    p4est_tree_t* tree = p4est_tree_array_index(p->trees, t);
    p4est_quadrant_t root; memset(&root, 0, sizeof root); p4est_quadrant_set_morton(&root, 0, 0); root.p.which_tree = t;
    rec(p, t, &root, tree, 0, tree->quadrants.elem_count, pre, post);
  }
}
// hstcrt (FISHPACK90): u_xx + u_yy + lambda u = f on a staggered grid, Dirichlet data on all sides; dense elimination.
extern "C" void hstcrt_(double* A, double* B, int* M, int* MB, double* BDA, double* BDB, double* C, double* D, int* N, int* NB, double* BDC, double* BDD, double* L, double* F, int* IDIMF, double* PERTRB, int* IERROR) {
  int m = *M, n = *N, s = *IDIMF, K = m * n; *PERTRB = 0; *IERROR = 0;
  if (*MB != 1 || *NB != 1) { *IERROR = 99; return; }
  double dx = (*B - *A) / m, dy = (*D - *C) / n, cx = 1 / (dx * dx), cy = 1 / (dy * dy);
  std::vector<double> a((size_t)K * K, 0.0), r(K);
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
    int k = i + j * m; double d = *L, f = F[i + j * s];
    if (i > 0) { a[(size_t)k * K + k - 1] = cx; d -= cx; } else { d -= 2 * cx; f -= 2 * cx * BDA[j]; }
    if (i < m - 1) { a[(size_t)k * K + k + 1] = cx; d -= cx; } else { d -= 2 * cx; f -= 2 * cx * BDB[j]; }
    if (j > 0) { a[(size_t)k * K + k - m] = cy; d -= cy; } else { d -= 2 * cy; f -= 2 * cy * BDC[i]; }
    if (j < n - 1) { a[(size_t)k * K + k + m] = cy; d -= cy; } else { d -= 2 * cy; f -= 2 * cy * BDD[i]; }
    a[(size_t)k * K + k] = d; r[k] = f;
  }
  for (int k = 0; k < K; k++) { // banded, diagonally dominant for lambda <= 0: no pivoting needed
    double p = a[(size_t)k * K + k]; int hi = k + m < K - 1 ? k + m : K - 1;
    for (int i = k + 1; i <= hi; i++) { double q = a[(size_t)i * K + k] / p; if (q == 0) continue; for (int c = k; c <= hi; c++) a[(size_t)i * K + c] -= q * a[(size_t)k * K + c]; r[i] -= q * r[k]; }
  }
  for (int k = K - 1; k >= 0; k--) { double v = r[k]; int hi = k + m < K - 1 ? k + m : K - 1; for (int c = k + 1; c <= hi; c++) v -= a[(size_t)k * K + c] * r[c]; r[k] = v / a[(size_t)k * K + k]; }
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) F[i + j * s] = r[i + j * m];
}
