// C15: distributed vectors and matrices hold exactly the values put into them.
#include "common.h"
#include <algorithm>
#include <cstring>
using namespace sim;
typedef EF::ParallelVector<double> PV; typedef EF::ParallelMatrix<double> PM; typedef EF::ParallelIdentityMatrix<double> PI;
static void ok(int e, const char* what) { if (e) fail("petsc-error", "%s reported error %d", what, e); }
// of either sign, with fractions of 64ths, some zero and some large; sums of them are exact in any order
static double entry(int i, int j, int k) { int v = (i * 37 + j * 11 + k * 101) % 997; double e = v % 6 == 0 ? 0.0 : v % 6 == 1 ? (double)(v + 1) * 1073741824.0 : (v + 1) / 64.0; return v % 5 == 2 ? -e : e; }
struct CommSpec { int kind, a, b; std::vector<int> members; };
static CommSpec gen_comm(int n) { CommSpec c; c.kind = gen(3, "communicator"); c.a = 0; c.b = n - 1; if (c.kind == 2) { c.a = gen(n, "first"); c.b = c.a + gen(n - c.a, "last"); } for (int i = c.a; i <= c.b; i++) c.members.push_back(i); return c; }
static MPI_Comm make_comm(const CommSpec& s) { MPI_Comm c = MPI_COMM_NULL; if (s.kind == 0) MPI_Comm_dup(MPI_COMM_WORLD, &c); else if (s.kind == 1) MPI_Comm_split(MPI_COMM_WORLD, 0, cur_rank(), &c); else EF::MPI::communicatorSubsetRange(MPI_COMM_WORLD, s.a, s.b, 1, &c); return c; }
static std::vector<int> gen_split(int total, int parts, const char* what) { std::vector<int> r(parts, 0); int left = total; for (int i = 0; i + 1 < parts; i++) { r[i] = gen(left + 1, what); left -= r[i]; } r[parts - 1] = left; return r; }
static std::vector<int> petsc_split(int total, int parts) { std::vector<int> r(parts); for (int i = 0; i < parts; i++) r[i] = total / parts + (total % parts > i); return r; }
static int start_of(const std::vector<int>& s, int r) { int a = 0; for (int i = 0; i < r; i++) a += s[i]; return a; }
struct Put { int rank, i, j, k; bool block; };
struct Round { bool add; std::vector<Put> puts; };
static std::vector<Round> gen_rounds(int np, int M, int N, int how_many) { std::vector<Round> rs; for (int r = 0; r < how_many; r++) { Round x; x.add = gen(2, "add"); int m = (M && N) ? gen(9, "entries") : 0; for (int q = 0; q < m; q++) x.puts.push_back({gen(np, "by rank"), gen(M, "row"), gen(N, "column"), r * 100 + (x.add ? q : 0), gen(3, "block") == 2}); rs.push_back(x); } return rs; }

// ------------------------------------------------------------------ vectors
struct VecSpec { int how, N, move; std::vector<int> local; std::vector<Round> rounds; };
static VecSpec gen_vec(int np) { VecSpec v; v.how = gen(6, "how made"); v.N = gen(31, "size"); v.move = gen(7, "moved"); v.local = v.how == 1 || v.how == 2 ? gen_split(v.N, np, "local size") : petsc_split(v.N, np); v.rounds = gen_rounds(np, v.N, 1, gen(4, "rounds")); return v; }
static std::string text(const VecSpec& v) { static const char* h[6] = {"sizes decided", "local and global sizes", "local sizes", "type", "serial", "serial and type"}; int e = 0; for (auto& r : v.rounds) e += (int)r.puts.size(); return strf("vector of %d by %s, %zu rounds of %d entries, move %d", v.N, h[v.how], v.rounds.size(), e, v.move); }
static void make_vec(PV& out, const VecSpec& v, MPI_Comm c, int me);
static PV* new_vec(const VecSpec& v, MPI_Comm c, int me) {
  switch (v.how) {
    case 1: return new PV(c, v.local[me], v.N); case 2: return new PV(c, v.local[me], PETSC_DETERMINE); case 3: return new PV(c, PETSC_DECIDE, v.N, VECMPI);
    case 4: case 5: { EF::Vector<double> s(v.N); for (int i = 0; i < v.N; i++) s[i] = entry(i, 0, 7); return v.how == 4 ? new PV(c, s) : new PV(c, s, VECMPI); }
    default: return new PV(c, PETSC_DECIDE, v.N);
  }
}
static void check_vec(const VecSpec& v, Vec x, int me, const std::vector<double>& want, const char* when) {
  PetscInt N, n, a, b; ok(VecGetSize(x, &N), "VecGetSize"); ok(VecGetLocalSize(x, &n), "VecGetLocalSize"); ok(VecGetOwnershipRange(x, &a, &b), "VecGetOwnershipRange"); int at = start_of(v.local, me);
  if (N != v.N || n != v.local[me] || a != at || b != at + n) fail("wrong-sizes", "%s a vector of %d has global size %d, local size %d and range %d..%d on rank %d, expected local size %d from %d", when, v.N, (int)N, (int)n, (int)a, (int)b, me, v.local[me], at);
  const PetscScalar* p; ok(VecGetArrayRead(x, &p), "VecGetArrayRead"); for (int i = 0; i < n; i++) if (p[i] != want[at + i]) fail("wrong-values", "%s entry %d of a vector of %d is %g on rank %d, expected %g", when, at + i, v.N, p[i], me, want[at + i]); VecRestoreArrayRead(x, &p); note("vector entries checked", n);
}
static std::vector<double> vec_model(const VecSpec& v, int upto) { std::vector<double> w(v.N, 0.0); if (v.how >= 4) for (int i = 0; i < v.N; i++) w[i] = entry(i, 0, 7); for (int r = 0; r < upto; r++) for (auto& p : v.rounds[r].puts) { int len = p.block ? std::min(4, v.N - p.i) : 1; for (int q = 0; q < len; q++) { double e = entry(p.i + q, 0, p.k); if (v.rounds[r].add) w[p.i + q] += e; else w[p.i + q] = e; } } return w; }
static void fill_vec(PV& x, const Round& r, const VecSpec& v, int me) {
  InsertMode m = r.add ? ADD_VALUES : INSERT_VALUES; for (auto& p : r.puts) if (p.rank == me) { if (!p.block) ok(x.setValue(p.i, entry(p.i, 0, p.k), m), "setValue"); else { int len = std::min(4, v.N - p.i); EF::Vector<int> ix(len); EF::Vector<double> va(len); for (int q = 0; q < len; q++) { ix[q] = p.i + q; va[q] = entry(p.i + q, 0, p.k); } ok(x.setValues(ix, va, m), "setValues"); } }
}
extern "C" void workload_pvector(const char*) {
  int n = 1 + gen(6, "ranks"); if (gen(20, "many ranks") == 19) n += gen(10, "more ranks"); CommSpec cs = gen_comm(n); int np = (int)cs.members.size(), nv = 1 + gen(3, "vectors"); std::vector<VecSpec> vs; std::string t; for (int i = 0; i < nv; i++) { vs.push_back(gen_vec(np)); t += (i ? "; " : "") + text(vs.back()); } bool overlap = gen(2, "overlapping assembly");
  label(strf("%d ranks, communicator %d:%d kind %d%s: ", n, cs.a, cs.b, cs.kind, overlap ? ", overlapping assembly" : "") + t);
  launch(n, [&](int world) {
    Rank r; r.start(); int64_t before; { Live l = live(); before = l.comms; } MPI_Comm c = (world < cs.a || world > cs.b) && cs.kind == 2 ? MPI_COMM_NULL : make_comm(cs); if (c == MPI_COMM_NULL) return; int me = world - cs.a;
    {
      std::vector<std::unique_ptr<PV>> x; for (auto& v : vs) x.emplace_back(new_vec(v, c, me)); size_t rounds = 0; for (auto& v : vs) rounds = std::max(rounds, v.rounds.size());
      for (int i = 0; i < nv; i++) if (vs[i].how >= 4) { ok(x[i]->beginAssembly(), "beginAssembly"); ok(x[i]->endAssembly(), "endAssembly"); }
      for (size_t q = 0; q < rounds; q++) {
        for (int i = 0; i < nv; i++) if (q < vs[i].rounds.size()) { fill_vec(*x[i], vs[i].rounds[q], vs[i], me); ok(x[i]->beginAssembly(), "beginAssembly"); if (!overlap) ok(x[i]->endAssembly(), "endAssembly"); }
        if (overlap) for (int i = 0; i < nv; i++) if (q < vs[i].rounds.size()) ok(x[i]->endAssembly(), "endAssembly");
      }
      for (int i = 0; i < nv; i++) {
        auto want = vec_model(vs[i], (int)vs[i].rounds.size()); check_vec(vs[i], x[i]->vec, me, want, "after assembly");
        PetscReal nrm; double s = 0; for (double w : want) s += w; PetscScalar sum; (void)nrm; ok(VecSum(x[i]->vec, &sum), "VecSum"); if (sum != s) fail("wrong-values", "a vector of %d sums to %g on rank %d, expected %g", vs[i].N, sum, me, s);
        switch (vs[i].move) {
          case 1: { PV y(std::move(*x[i])); x[i].reset(); check_vec(vs[i], y.vec, me, want, "after moving"); note("moves"); break; }
          case 2: { PV y(c); y = std::move(*x[i]); x[i].reset(); check_vec(vs[i], y.vec, me, want, "after moving"); note("moves"); break; }
          case 3: { std::unique_ptr<PV> y(new_vec(vs[(i + 1) % nv], c, me)); if (vs[(i + 1) % nv].how >= 4) { y->beginAssembly(); y->endAssembly(); } *y = std::move(*x[i]); x[i].reset(); check_vec(vs[i], y->vec, me, want, "after moving"); note("moves"); break; }
          case 4: { std::vector<PV> many; for (int q = 0; q < 3; q++) { many.push_back(std::move(*x[i])); *x[i] = std::move(many.back()); } many.push_back(std::move(*x[i])); check_vec(vs[i], many.back().vec, me, want, "after moving"); x[i].reset(); note("moves"); break; }
          case 5: { PV y(*x[i]); check_vec(vs[i], y.vec, me, want, "in a copy"); x[i].reset(); check_vec(vs[i], y.vec, me, want, "in a copy that outlived it"); note("copies"); break; }
          case 6: { auto make = [&] { PV y(*x[i]); return y; }; { PV y = make(); check_vec(vs[i], y.vec, me, want, "in a copy"); } check_vec(vs[i], x[i]->vec, me, want, "after a copy was destroyed"); note("copies"); break; }
          default: break;
        }
      }
    }
    MPI_Comm_free(&c); Live l = live(); if (l.comms != before) fail("leak", "rank %d still holds %lld communicators after its vectors were destroyed", me, (long long)(l.comms - before));
  });
}
// ------------------------------------------------------------------ matrices
struct MatSpec { int how, M, N, move; std::vector<int> rows, cols; std::vector<Round> rounds; bool dense = false; bool sub = false; std::vector<int> srow, scol, srows, scols; };
static MatSpec gen_mat(int np) {
  MatSpec m; m.how = gen(9, "how made"); m.M = gen(13, "rows"); m.N = m.how >= 6 ? m.M : gen(13, "columns"); m.move = gen(7, "moved"); bool expl = m.how == 1; m.rows = expl ? gen_split(m.M, np, "local rows") : petsc_split(m.M, np); m.cols = expl ? gen_split(m.N, np, "local columns") : petsc_split(m.N, np);
  if (m.how == 2 || m.how == 4 || m.how == 8) m.dense = gen(2, "dense"); if (m.how < 6) m.rounds = gen_rounds(np, m.M, m.N, gen(4, "rounds"));
  if ((m.how < 6 && !m.dense) && gen(2, "block of it")) { m.sub = true; for (int i = 0; i < m.M; i++) if (gen(2, "row of block")) m.srow.push_back(i); for (int j = 0; j < m.N; j++) if (gen(2, "column of block")) m.scol.push_back(j); if (gen(2, "rows reversed")) std::reverse(m.srow.begin(), m.srow.end()); m.srows = gen_split((int)m.srow.size(), np, "rows on rank"); m.scols = gen_split((int)m.scol.size(), np, "columns on rank"); }
  return m;
}
static std::string text(const MatSpec& m) { static const char* h[9] = {"sizes decided", "local and global sizes", "type", "serial", "serial and type", "taken over", "world identity", "identity", "identity and type"}; int e = 0; for (auto& r : m.rounds) e += (int)r.puts.size(); return strf("%dx%d matrix by %s%s, %zu rounds of %d entries, move %d", m.M, m.N, h[m.how], m.dense ? " (dense)" : "", m.rounds.size(), e, m.move) + (m.sub ? strf(", block of %zux%zu", m.srow.size(), m.scol.size()) : ""); }
static PM* new_mat(const MatSpec& m, MPI_Comm c, int me) {
  auto ty = m.dense ? MATDENSE : MATAIJ;
  switch (m.how) {
    case 1: return new PM(c, m.rows[me], m.cols[me], m.M, m.N); case 2: return new PM(c, PETSC_DECIDE, PETSC_DECIDE, m.M, m.N, ty);
    case 3: case 4: { EF::Matrix<double> s(m.M, m.N); for (int i = 0; i < m.M; i++) for (int j = 0; j < m.N; j++) s(i, j) = entry(i, j, 7); return m.how == 3 ? new PM(c, s) : new PM(c, s, ty); }
    case 5: { Mat a; MatCreate(c, &a); MatSetSizes(a, PETSC_DECIDE, PETSC_DECIDE, m.M, m.N); MatSetType(a, MATAIJ); MatSetUp(a); return new PM(c, a); }
    case 6: return new PI(m.M); case 7: return new PI(c, m.M); case 8: return new PI(c, m.M, ty);
    default: return new PM(c, PETSC_DECIDE, PETSC_DECIDE, m.M, m.N);
  }
}
typedef std::vector<std::vector<double>> Dense;
static Dense mat_model(const MatSpec& m) { Dense w(m.M, std::vector<double>(m.N, 0.0)); if (m.how == 3 || m.how == 4) for (int i = 0; i < m.M; i++) for (int j = 0; j < m.N; j++) w[i][j] = entry(i, j, 7); if (m.how >= 6) for (int i = 0; i < m.M; i++) w[i][i] = 1; for (auto& r : m.rounds) for (auto& p : r.puts) { int h = p.block ? std::min(2, m.M - p.i) : 1, l = p.block ? std::min(3, m.N - p.j) : 1; for (int a = 0; a < h; a++) for (int b = 0; b < l; b++) { double e = entry(p.i + a, p.j + b, p.k); if (r.add) w[p.i + a][p.j + b] += e; else w[p.i + a][p.j + b] = e; } } return w; }
static void fill_mat(PM& x, const Round& r, const MatSpec& m, int me) {
  InsertMode md = r.add ? ADD_VALUES : INSERT_VALUES; for (auto& p : r.puts) if (p.rank == me) { if (!p.block) { ok(x.setValue(p.i, p.j, entry(p.i, p.j, p.k), md), "setValue"); continue; } int h = std::min(2, m.M - p.i), l = std::min(3, m.N - p.j); EF::Vector<int> ri(h), ci(l); EF::Matrix<double> va(h, l); EF::Vector<double> vv(h * l); for (int a = 0; a < h; a++) ri[a] = p.i + a; for (int b = 0; b < l; b++) ci[b] = p.j + b; for (int a = 0; a < h; a++) for (int b = 0; b < l; b++) vv[a * l + b] = va(a, b) = entry(p.i + a, p.j + b, p.k); if (p.k % 2) ok(x.setValues(ri, ci, va, md), "setValues"); else ok(x.setValues(ri, ci, vv, md), "setValues"); }
}
static void assemble(PM& x) { ok(x.beginAssembly(MAT_FINAL_ASSEMBLY), "beginAssembly"); ok(x.endAssembly(MAT_FINAL_ASSEMBLY), "endAssembly"); }
static void check_mat(PM& x, MPI_Comm c, int me, int M, int N, const std::vector<int>& rows, const std::vector<int>& cols, const Dense& want, bool direct, const char* when) {
  PetscInt gm, gn, lm, ln, a, b; ok(MatGetSize(x.mat, &gm, &gn), "MatGetSize"); ok(MatGetLocalSize(x.mat, &lm, &ln), "MatGetLocalSize"); ok(MatGetOwnershipRange(x.mat, &a, &b), "MatGetOwnershipRange"); int at = start_of(rows, me);
  if (gm != M || gn != N || lm != rows[me] || ln != cols[me] || a != at || b != at + lm) fail("wrong-sizes", "%s a %dx%d matrix is %dx%d with %dx%d local from row %d on rank %d, expected %dx%d from %d", when, M, N, (int)gm, (int)gn, (int)lm, (int)ln, (int)a, me, rows[me], cols[me], at);
  if (x.globalRows() != M || x.globalCols() != N || x.localRows() != rows[me] || x.localCols() != cols[me]) fail("wrong-sizes", "%s a %dx%d matrix says it is %dx%d with %dx%d local on rank %d, expected %dx%d", when, M, N, x.globalRows(), x.globalCols(), x.localRows(), x.localCols(), me, rows[me], cols[me]);
  for (int i = at; i < at + lm; i++) { PetscInt nc; const PetscInt* cc; const PetscScalar* vv; std::vector<double> got(N, 0.0); ok(MatGetRow(x.mat, i, &nc, &cc, &vv), "MatGetRow"); for (int k = 0; k < nc; k++) got[cc[k]] += vv[k]; MatRestoreRow(x.mat, i, &nc, &cc, &vv); for (int j = 0; j < N; j++) if (got[j] != want[i][j]) fail("wrong-values", "%s entry (%d,%d) of a %dx%d matrix is %g on rank %d, expected %g", when, i, j, M, N, got[j], me, want[i][j]); }
  if (direct && lm && N) { EF::Vector<int> ri(lm), ci(N); EF::Matrix<double> va(lm, N, -1.0); for (int i = 0; i < lm; i++) ri[i] = at + i; for (int j = 0; j < N; j++) ci[j] = j; ok(x.getValues(ri, ci, va), "getValues"); for (int i = 0; i < lm; i++) for (int j = 0; j < N; j++) if (va(i, j) != want[at + i][j]) fail("wrong-values", "%s getValues gives %g for entry (%d,%d) on rank %d, expected %g", when, va(i, j), at + i, j, me, want[at + i][j]); double one = -1; ok(x.getValue(at, N - 1, one), "getValue"); if (one != want[at][N - 1]) fail("wrong-values", "%s getValue gives %g for entry (%d,%d), expected %g", when, one, at, N - 1, want[at][N - 1]); }
  PV u(c, cols[me], N), w(c, rows[me], M); int c0 = start_of(cols, me); for (int j = 0; j < cols[me]; j++) u.setValue(c0 + j, 1 + (c0 + j) % 7, INSERT_VALUES); u.beginAssembly(); u.endAssembly(); ok(MatMult(x.mat, u.vec, w.vec), "MatMult"); const PetscScalar* p; VecGetArrayRead(w.vec, &p); for (int i = 0; i < lm; i++) { double s = 0; for (int j = 0; j < N; j++) s += want[at + i][j] * (1 + j % 7); if (p[i] != s) fail("wrong-values", "%s row %d of a %dx%d matrix times a vector gives %g on rank %d, expected %g", when, at + i, M, N, p[i], me, s); } VecRestoreArrayRead(w.vec, &p); note("matrix rows checked", lm);
}
extern "C" void workload_pmatrix(const char*) {
  int n = 1 + gen(6, "ranks"); if (gen(20, "many ranks") == 19) n += gen(10, "more ranks"); CommSpec cs = gen_comm(n); int np = (int)cs.members.size(), nm = 1 + gen(2, "matrices"); std::vector<MatSpec> ms; std::string t; for (int i = 0; i < nm; i++) { ms.push_back(gen_mat(np)); if (ms.back().how == 6 && cs.kind == 2) ms.back().how = 7; t += (i ? "; " : "") + text(ms.back()); }
  label(strf("%d ranks, communicator %d:%d kind %d: ", n, cs.a, cs.b, cs.kind) + t);
  launch(n, [&](int world) {
    Rank r; r.start(); int64_t before = live().comms; MPI_Comm c = (world < cs.a || world > cs.b) && cs.kind == 2 ? MPI_COMM_NULL : make_comm(cs); if (c == MPI_COMM_NULL) return; int me = world - cs.a; bool world_used = false;
    {
      std::vector<std::unique_ptr<PM>> x;
      for (auto& m : ms) { x.emplace_back(new_mat(m, c, me)); if (m.how == 6) world_used = true; if (m.how == 3 || m.how == 4) assemble(*x.back()); for (auto& q : m.rounds) { fill_mat(*x.back(), q, m, me); assemble(*x.back()); } if (m.how < 6 && m.how != 3 && m.how != 4 && m.rounds.empty()) assemble(*x.back()); }
      for (int i = 0; i < nm; i++) {
        auto& m = ms[i]; Dense want = mat_model(m); MPI_Comm cc = m.how == 6 ? MPI_COMM_WORLD : c; bool direct = m.how < 6; auto chk = [&](PM& y, const char* when) { check_mat(y, cc, me, m.M, m.N, m.rows, m.cols, want, direct, when); }; chk(*x[i], "after assembly");
        if (m.sub) {
          int r0 = start_of(m.srows, me), c0 = start_of(m.scols, me); IS ir, ic; std::vector<int> a(m.srow.begin() + r0, m.srow.begin() + r0 + m.srows[me]), b(m.scol.begin() + c0, m.scol.begin() + c0 + m.scols[me]); ISCreateGeneral(c, (int)a.size(), a.data(), PETSC_COPY_VALUES, &ir); ISCreateGeneral(c, (int)b.size(), b.data(), PETSC_COPY_VALUES, &ic);
          Dense sw(m.srow.size(), std::vector<double>(m.scol.size())); for (size_t p = 0; p < m.srow.size(); p++) for (size_t q = 0; q < m.scol.size(); q++) sw[p][q] = want[m.srow[p]][m.scol[q]];
          { PM y(c, *x[i], ir, ic); ISDestroy(&ir); ISDestroy(&ic); check_mat(y, c, me, (int)m.srow.size(), (int)m.scol.size(), m.srows, m.scols, sw, true, "selected block:"); } note("blocks selected"); chk(*x[i], "after a block was selected");
        }
        switch (m.move) {
          case 1: { PM y(std::move(*x[i])); x[i].reset(); chk(y, "after moving"); note("moves"); break; }
          case 2: { PM y(c); y = std::move(*x[i]); x[i].reset(); chk(y, "after moving"); note("moves"); break; }
          case 3: { std::unique_ptr<PM> y(new_mat(ms[(i + 1) % nm], c, me)); assemble(*y); if (ms[(i + 1) % nm].how == 6) world_used = true; *y = std::move(*x[i]); x[i].reset(); chk(*y, "after moving"); note("moves"); break; }
          case 4: { std::vector<PM> many; for (int q = 0; q < 3; q++) { many.emplace_back(std::move(*x[i])); *x[i] = std::move(many.back()); } many.emplace_back(std::move(*x[i])); chk(many.back(), "after moving"); x[i].reset(); note("moves"); break; }
          case 5: { PM y(*x[i]); chk(y, "in a copy"); x[i].reset(); chk(y, "in a copy that outlived it"); note("copies"); break; }
          case 6: { auto make = [&] { PM y(*x[i]); return y; }; { PM y = make(); chk(y, "in a copy"); } chk(*x[i], "after a copy was destroyed"); note("copies"); break; }
          default: break;
        }
      }
    }
    MPI_Comm_free(&c); Live l = live(); if (!world_used && l.comms != before) fail("leak", "rank %d still holds %lld communicators after its matrices were destroyed", me, (long long)(l.comms - before));
  });
}
