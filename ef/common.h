#pragma once
#include <EllipticForest.hpp>
#include <Patches/FiniteVolume/FiniteVolume.hpp>
#include "../sim/simapi.h"
#include <array>
#include <map>
#include <memory>
#include <cmath>
namespace EF = EllipticForest;
using Patch = EF::FiniteVolumePatch; using Grid = EF::FiniteVolumeGrid; using Solver = EF::FiniteVolumeSolver;
using HPS = EF::HPSAlgorithm<Grid, Solver, Patch, double>; using QNode = EF::Node<Patch>; using MeshT = EF::Mesh<Patch>;

// ------------------------------------------------------------------ meshes
struct Rect { double x0, x1, y0, y1; bool has(double x, double y) const { return x > x0 && x < x1 && y > y0 && y < y1; } };
struct MeshSpec {
  int nx = 8, ny = 0, minl = 1, maxl = 1; int my() const { return ny ? ny : nx; } double xl = -1, xu = 1, yl = -1, yu = 1; std::vector<Rect> rects; bool slope = false; double sa = 0, sb = 0, sw = 0;
  std::shared_ptr<MeshSpec> before; int used = 0;   // the mesh object held this refinement before; 1: and a problem was solved on it, 2: by the algorithm object that goes on
  bool crit(double x, double y) const;
  std::string text() const;
};
MeshSpec gen_mesh(int max_leaves, bool adaptive_ok);
MeshSpec gen_tree_mesh(int max_leaves);                  // for workloads that never solve: any patch size, deeper, uneven sides     // draws from the GEN stream
// what refinement must give, computed from the definition: leaves by path
struct Box { double xl, xu, yl, yu; };
Box box_of(const MeshSpec& m, const std::string& path);
std::map<std::string, Box> reference_leaves(const MeshSpec& m);
int gen_ranks(int nleaves, int maxp);

// ------------------------------------------------------------------ problems
struct Coef { int alpha = 0, beta = 0, lambda = 0; };
double f_alpha(int k, double x, double y); double f_beta(int k, double x, double y); double f_lambda(int k, double x, double y);
struct Data {                     // right-hand side and boundary data
  int kind = 0;                   // 0 linear exact, 1 smooth arbitrary, 2 zero rhs with boundary data, 3 rough, 4 all zero
  double c0 = 1, c1 = 2, c2 = 3; int bc[4] = {0, 0, 0, 0}; // per side: 0 Dirichlet 1 Neumann 2 Robin 3 point-wise mix
  double k = 1;
  double scale = 1;               // of right-hand side, boundary data and solution
  double unit = 1;                // of length in the boundary conditions: that of a domain too small for 1
  int sc[4] = {0, 0, 0, 0};       // per side: how the condition's coefficients are scaled, see bnd_of
};
struct Problem { MeshSpec mesh; Coef coef; Data data; int fish = 0; bool cache = false, homog = false; };
double rhs_of(const Problem& p, const Data& d, double x, double y);
double bnd_of(const Problem& p, const Data& d, int side, double x, double y, double* a, double* b);
double exact_linear(const Data& d, double x, double y);
Coef gen_coef(bool constant_only);
Data gen_data(bool allow_bc);
std::string text(const Problem& p); std::string text(const Data& d);

struct Leaf { std::vector<double> u, g; Box box; int rank = -1; };
typedef std::map<std::string, Leaf> Field;
// independent serial computation of the same discretisation
struct RefSolver { struct Impl; std::shared_ptr<Impl> p; RefSolver(const Problem& prob, const std::map<std::string, Box>& leaves); Field solve2(const Data& rhs, const Data& bnd, bool zero_rhs = false); std::function<double(double, double)> load; /* in place of the right-hand side */ };
double max_abs(const Field& f);
void compare(const char* what, const Field& got, const Field& want, double rel, const char* kind = "wrong-answer", double floor = 1);

// ------------------------------------------------------------------ running it
struct Rank {                      // everything one rank owns during a job
  int argc = 1; char a0[8] = "prog"; char* av[2] = {a0, nullptr}; char** argv = av;
  std::unique_ptr<EF::EllipticForestApp> app; std::unique_ptr<Grid> grid; std::unique_ptr<Patch> root; std::unique_ptr<EF::FiniteVolumeNodeFactory> factory;
  std::unique_ptr<MeshT> mesh; std::unique_ptr<Solver> solver; std::unique_ptr<HPS> hps;
  void start();
  long calls = 0, throw_at = 0, bnd_calls = 0;                       // user callbacks made in this stage; the one that throws
  void called();
  void options(bool cache, bool homog);
  void make_mesh(const MeshSpec& m); bool keep_hps = false;
  void make_mesh_weighted(const MeshSpec& m, int seed); // the program's own p4est, cut unevenly
  void make_solver(const Problem& p); void set_functions(const Problem& p); void new_hps();
  std::vector<std::unique_ptr<HPS>> old_hps; std::vector<std::unique_ptr<Solver>> old_solver;
  void build(); void upwards(const Problem& p, const Data& d); void solve(const Problem& p, const Data& d);
  void upwards_patch(const Problem& p, const Data& d); void solve_root(const Problem& p, const Data& d);
  void collect(Field& out, std::mutex* = nullptr);   // harness: adds local leaves
  ~Rank();
};
struct CallbackFailed : std::exception { const char* what() const noexcept override { return "callback failed"; } };
void check_tiling(const MeshSpec& m, const Field& f, int nranks);
std::string strf(const char* fmt, ...);
