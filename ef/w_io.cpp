// C08: output files; C13: option files.
#include "vtkcheck.h"
// ------------------------------------------------------------------ C08
struct OutSpec { int where, number, funcs, point_funcs, fault, fault_at, how; double p_short, p_eintr; bool kill, again; std::vector<int> kind; std::vector<std::string> names; };
static std::string mkdirs(const std::string& d) { for (size_t k = 1; k <= d.size(); k++) if (k == d.size() || d[k] == '/') if (mkdir(d.substr(0, k).c_str(), 0777) && errno != EEXIST) infra("mkdir %s: %s", d.c_str(), strerror(errno)); return d; }
static std::string base_for(int where) {
  std::string s = scratch(); switch (where) { case 1: return mkdirs(s + "/out/deep.er") + "/elliptic"; case 2: return s + "/a%s%d"; case 3: return mkdirs(s + "/" + std::string(120, 'd') + "/" + std::string(90, 'e')) + "/elliptic"; case 4: return s + "/" + std::string(180, 'n'); case 5: return "./rel"; case 6: mkdirs(s + "/sub"); return "sub/rel"; default: return "elliptic"; }
}
static const char* fname[7] = {"u_soln", "f", "alpha", "an array", "p&q", "u<0", "say \"x\""};
static OutSpec gen_out(bool direct) {
  OutSpec o; o.where = gen(7, "place"); static const int nums[4] = {-1, 0, 7, 12345}; o.number = direct ? -1 : nums[gen(4, "number")]; o.funcs = gen(4, "cell functions"); o.point_funcs = direct ? gen(3, "point functions") : 0; int odd = gen(4, "odd names") == 3; for (int i = 0; i < o.funcs + o.point_funcs; i++) { o.kind.push_back(gen(2, "function kind")); o.names.push_back(odd && gen(2, "odd") ? fname[3 + (i + gen(4, "name")) % 4] + strf("%d", i) : fname[i % 3] + (i > 2 ? strf("%d", i) : "")); }
  int f = gen(8, "fault"); o.fault = f < 4 ? 0 : f - 3; o.fault_at = o.fault ? gen(o.fault == 2 || o.fault == 3 ? 60 : 10, "where it fails") : 0; o.p_short = gen(2, "short writes") * 0.4; o.p_eintr = gen(2, "interrupted writes") * 0.3; o.kill = gen(2, "killed"); o.again = gen(3, "written twice") == 2; o.how = gen(3, "errno"); return o;
}
static const char* place_names[7] = {"here", "directories", "percent signs", "long path", "long name", "./", "relative directory"};
static std::string text(const OutSpec& o) { static const char* f[5] = {"no fault", "open fails", "disk full", "I/O error", "close fails"}; std::string s = strf("%s, number %d, %d cell and %d point functions, %s at %d%s%s%s%s", place_names[o.where], o.number, o.funcs, o.point_funcs, f[o.fault], o.fault_at, o.p_short > 0 ? ", short writes" : "", o.p_eintr > 0 ? ", interrupted writes" : "", o.kill ? ", killed afterwards" : "", o.again ? ", written twice" : ""); for (auto& n : o.names) s += " '" + n + "'"; return s; }
static DiskPlan plan_of(const OutSpec& o, bool faults) { DiskPlan d; d.p_short = o.p_short; d.p_eintr = o.p_eintr; if (!faults) return d; switch (o.fault) { case 1: { static const int e[3] = {EACCES, ENOSPC, EMFILE}; d.open_fail = 1 + o.fault_at; d.open_errno = e[o.how]; break; } case 2: d.write_budget = (long)o.fault_at * o.fault_at * 37; d.write_errno = o.how == 2 ? EDQUOT : ENOSPC; break; case 3: d.write_budget = (long)o.fault_at * o.fault_at * 37; d.write_errno = EIO; break; case 4: d.close_fail = 1 + o.fault_at; break; } return d; }
extern "C" void workload_vtk(const char*) { // Mesh::toVTK
  MeshSpec m = gen_tree_mesh(24); if (gen(12, "large patches") != 11) { if (m.nx > 4) m.nx = 4; if (m.ny > 4) m.ny = 4; } else { m.nx = 8 + 4 * gen(4, "nx"); m.ny = 0; } int n = gen_ranks((int)reference_leaves(m).size() + (gen(8, "idle ranks") == 7 ? 3 : 0), 6); OutSpec o = gen_out(false); label(strf("%d ranks; ", n) + m.text() + "; " + text(o)); if (chdir(scratch().c_str())) infra("chdir");
  std::string base = base_for(o.where), suffix = o.number == -1 ? "" : strf("-%04d", o.number); std::vector<Content> c(n); std::vector<std::string> error(n); std::vector<char> done(n, 0); DiskPlan quiet; quiet.p_short = o.p_short; quiet.p_eintr = o.p_eintr;
  set_disk(plan_of(o, false));
  launch(n, [&](int me) {
    Rank r; r.start(); r.make_mesh(m); std::vector<std::unique_ptr<EF::Vector<double>>> own;
    { Quiet q; local_cells(*r.mesh, c[me]); }
    auto attach = [&](int shift) {
      r.mesh->clearMeshFunctions(); { Quiet q; c[me].cell_data.clear(); }
      for (int k = 0; k < o.funcs; k++) { { Quiet q; std::vector<double> v; for (auto& b : c[me].cells) v.push_back(fn_value(k + shift, (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2)); c[me].cell_data.push_back(v); } if (o.kind[k] == 0) r.mesh->addMeshFunction([k, shift](double x, double y) { return fn_value(k + shift, x, y); }, o.names[k]); else { own.emplace_back(new EF::Vector<double>(c[me].cell_data.back())); own.back()->name() = o.names[k]; r.mesh->addMeshFunction(*own.back()); } }
    };
    auto write = [&](int shift) { attach(shift); error[me].clear(); try { r.mesh->toVTK(base, o.number); } catch (std::exception& e) { error[me] = e.what(); if (error[me].empty()) error[me] = "?"; } };
    if (o.again) { write(2); sync_all("first output"); }
    sync_all("disk"); if (me == 0) set_disk(plan_of(o, true)); sync_all("disk set"); write(0); done[me] = 1; sync_all("written"); if (me == 0) { Quiet q; check_reported("the mesh", error, n); }
    if (o.fault) { bool failed = (disk_fired().ranks | disk_fired().soft) != 0; sync_all("checked"); if (me == 0) { DiskPlan d; d.p_short = o.p_short; d.p_eintr = o.p_eintr; set_disk(d); } sync_all("disk mended"); if (failed) { write(1); sync_all("written again"); if (me == 0) { Quiet q; check_reported("the mesh again", error, n); for (int k = 0; k < n; k++) if (!error[k].empty()) fail("false-failure", "writing the mesh after an earlier failure failed: %s", error[k].c_str()); } } }
    sync_all("all written"); if (o.kill) kill_job();
  });
  std::vector<std::string> pieces, none; for (int r = 0; r < n; r++) pieces.push_back(base + "-mesh" + suffix + strf("_%04d.vtu", r)); for (int r = 0; r < n; r++) check_piece(pieces[r], c[r], o.names, none); check_header(base + "-mesh" + suffix + ".pvtu", pieces, o.names, none); check_forest_files(base + "-quadtree" + suffix, c);
}
extern "C" void workload_vtk_direct(const char*) { // the writers on their own
  MeshSpec m = gen_tree_mesh(12); if (gen(12, "large patches") != 11) { if (m.nx > 4) m.nx = 4; if (m.ny > 4) m.ny = 4; } else { m.nx = 8 + 4 * gen(4, "nx"); m.ny = 0; } int n = gen_ranks((int)reference_leaves(m).size() + (gen(8, "idle ranks") == 7 ? 3 : 0), 6), kind = gen(2, "writer"), a = kind ? 0 : gen(n, "first"), b = kind ? n - 1 : a + gen(n - a, "last"); OutSpec o = gen_out(true); label(strf("%d ranks, %s, ranks %d..%d; ", n, kind ? "one file each" : "parallel writer", a, b) + m.text() + "; " + text(o)); if (chdir(scratch().c_str())) infra("chdir");
  std::string base = base_for(o.where); int np = b - a + 1; std::vector<Content> c(n); std::vector<std::string> error(n); std::vector<std::string> cn(o.names.begin(), o.names.begin() + o.funcs), pn(o.names.begin() + o.funcs, o.names.end()); set_disk(plan_of(o, false));
  launch(n, [&](int me) {
    Rank r; r.start(); r.make_mesh(m); MPI_Comm cm = MPI_COMM_NULL; bool in = me >= a && me <= b; EF::MPI::communicatorSubsetRange(MPI_COMM_WORLD, a, b, 2, &cm);
    { Quiet q; local_cells(*r.mesh, c[me]); } std::vector<std::unique_ptr<EF::Vector<double>>> arr;
    auto fill = [&](int shift) { Quiet q; c[me].cell_data.clear(); c[me].point_data.clear(); for (int k = 0; k < o.funcs; k++) { std::vector<double> v; for (auto& x : c[me].cells) v.push_back(fn_value(k + shift, x.x0, x.y1)); c[me].cell_data.push_back(v); } for (int k = 0; k < o.point_funcs; k++) { std::vector<double> v; for (auto& x : c[me].cells) for (int z = 0; z < 4; z++) v.push_back(fn_value(k + shift + 1, x.x0 + z, x.y0)); c[me].point_data.push_back(v); }
      for (int k = 0; k < o.funcs + o.point_funcs; k++) { auto& v = k < o.funcs ? c[me].cell_data[k] : c[me].point_data[k - o.funcs]; if ((int)arr.size() <= k) { arr.emplace_back(new EF::Vector<double>(v)); arr.back()->name() = o.names[k]; } else for (size_t z = 0; z < v.size(); z++) (*arr[k])[z] = v[z]; } };
    std::unique_ptr<EF::PUnstructuredGridVTK> pw; std::unique_ptr<EF::UnstructuredGridVTK> uw; fill(3);
    if (in) { if (kind == 0) { pw.reset(cm == MPI_COMM_NULL ? nullptr : new EF::PUnstructuredGridVTK(cm)); pw->buildMesh(*r.mesh); } else { uw.reset(new EF::UnstructuredGridVTK()); uw->buildMesh(*r.mesh); } for (int k = 0; k < o.funcs + o.point_funcs; k++) { if (kind == 0) { if (k < o.funcs) pw->addCellData(*arr[k]); else pw->addPointData(*arr[k]); } else { if (k < o.funcs) uw->addCellData(*arr[k]); else uw->addPointData(*arr[k]); } } }
    auto write = [&](int shift) { fill(shift); error[me].clear(); if (in) try { if (kind == 0) pw->toVTK(base); else uw->toVTK(base + strf("_%04d.vtu", me)); } catch (std::exception& e) { error[me] = e.what(); if (error[me].empty()) error[me] = "?"; } };
    if (o.again) { write(2); sync_all("first output"); }
    sync_all("disk"); if (me == 0) set_disk(plan_of(o, true)); sync_all("disk set"); write(0); sync_all("written"); if (me == 0) { Quiet q; check_reported("a grid", error, n); }
    if (o.fault) { bool failed = (disk_fired().ranks | disk_fired().soft) != 0; sync_all("checked"); if (me == 0) { DiskPlan d; d.p_short = o.p_short; d.p_eintr = o.p_eintr; set_disk(d); } sync_all("disk mended"); if (failed) { write(1); sync_all("written again"); if (me == 0) { Quiet q; for (int k = 0; k < n; k++) if (!error[k].empty()) fail("false-failure", "writing a grid after an earlier failure failed: %s", error[k].c_str()); } } }
    sync_all("all written"); if (o.kill) kill_job(); pw.reset(); uw.reset(); if (cm != MPI_COMM_NULL) MPI_Comm_free(&cm);
  });
  std::vector<std::string> pieces; for (int r = 0; r < np; r++) { pieces.push_back(base + strf("_%04d.vtu", r)); check_piece(pieces.back(), c[a + r], cn, pn); } if (kind == 0) check_header(base + ".pvtu", pieces, cn, pn); else if (exists(base + ".pvtu")) fail("wrong-file", "a header file was written by a single writer");
}
extern "C" void workload_vtk_rect(const char*) { // the writer of rectilinear grids: a file per rank
  int n = 1 + gen(3, "ranks"); OutSpec o = gen_out(true); bool z = gen(2, "z"); int nx = gen(6, "nx"), ny = gen(5, "ny"), off = gen(3, "first index"); label(strf("%d ranks, rectilinear %d x %d from %d%s; ", n, nx, ny, off, z ? " with z" : "") + text(o)); if (chdir(scratch().c_str())) infra("chdir");
  struct G : EF::RectilinearGridNodeBase { int x, y, o; std::string w; std::string ext() { return strf("%d %d %d %d 0 0", o, o + x, o, o + y); } std::string getWholeExtent() override { return strf("0 %d 0 %d 0 0", o + x + 1, o + y + 1); } std::string getExtent() override { return ext(); } };
  std::string base = base_for(o.where); std::vector<std::string> error(n); std::vector<std::string> cn(o.names.begin(), o.names.begin() + o.funcs), pn(o.names.begin() + o.funcs, o.names.end()); int last = -1; set_disk(plan_of(o, false));
  auto value = [&](int k, int me, int i, int shift) { return fn_value(k + shift, me + 0.5 * i, 1.25 * i - k); };
  auto size = [&](int k) { return k < o.funcs ? nx * ny : (nx + 1) * (ny + 1); };
  auto file = [&](int r) { return base + strf("_%04d.vtr", r); };
  launch(n, [&](int me) {
    Rank r; r.start(); std::vector<std::unique_ptr<EF::Vector<double>>> arr; G g; g.x = nx; g.y = ny; g.o = off; EF::Vector<double> X(nx + 1), Y(ny + 1), Z(1); X.name() = "x"; Y.name() = "y"; Z.name() = "z"; for (int i = 0; i <= nx; i++) X[i] = me - 0.125 * i * i; for (int i = 0; i <= ny; i++) Y[i] = 2 + 0.75 * i; Z[0] = 4.5;
    for (int k = 0; k < o.funcs + o.point_funcs; k++) { arr.emplace_back(new EF::Vector<double>(size(k))); arr.back()->name() = o.names[k]; }
    EF::RectilinearGridVTK w; bool early = false; try { w.toVTK(file(me)); } catch (std::exception&) { early = true; } if (!early) fail("unreported-failure", "a grid without a mesh was written as if it had one");
    w.buildMesh(g, &X, &Y, z ? &Z : nullptr); for (int k = 0; k < (int)arr.size(); k++) if (k < o.funcs) w.addCellData(*arr[k]); else w.addPointData(*arr[k]);
    auto write = [&](int shift) { for (int k = 0; k < (int)arr.size(); k++) for (int i = 0; i < size(k); i++) (*arr[k])[i] = value(k, me, i, shift); error[me].clear(); try { w.toVTK(file(me)); } catch (std::exception& e) { error[me] = e.what(); if (error[me].empty()) error[me] = "?"; } };
    if (o.again) { write(2); sync_all("first output"); }
    sync_all("disk"); if (me == 0) set_disk(plan_of(o, true)); sync_all("disk set"); write(0); { Quiet q; last = 0; } sync_all("written"); if (me == 0) { Quiet q; check_reported("a grid", error, n); }
    if (o.fault) { bool failed = (disk_fired().ranks | disk_fired().soft) != 0; sync_all("checked"); if (me == 0) { DiskPlan d; d.p_short = o.p_short; d.p_eintr = o.p_eintr; set_disk(d); } sync_all("disk mended"); if (failed) { write(1); { Quiet q; last = 1; } sync_all("written again"); if (me == 0) { Quiet q; for (int k = 0; k < n; k++) if (!error[k].empty()) fail("false-failure", "writing a grid after an earlier failure failed: %s", error[k].c_str()); } } }
    sync_all("all written"); if (o.kill) kill_job();
  });
  for (int r = 0; r < n; r++) {
    std::string f = file(r); Xml x = read_xml(f); if (x.name != "VTKFile" || !x.get("type") || *x.get("type") != "RectilinearGrid") fail("wrong-file", "%s is not a VTK rectilinear grid file", rel(f).c_str()); const Xml& g = only(x, "RectilinearGrid", f); G want; want.x = nx; want.y = ny; want.o = off; const Xml& p = only(g, "Piece", f);
    if (!g.get("WholeExtent") || *g.get("WholeExtent") != want.getWholeExtent() || !p.get("Extent") || *p.get("Extent") != want.ext()) fail("wrong-file", "%s does not say which cells it holds", rel(f).c_str());
    const Xml& c = only(p, "Coordinates", f); auto axes = c.all("DataArray"); if (axes.size() != 3) fail("wrong-file", "%s has %zu coordinate arrays, expected three", rel(f).c_str(), axes.size()); std::vector<double> ax[3]; for (int i = 0; i <= nx; i++) ax[0].push_back(r - 0.125 * i * i); for (int i = 0; i <= ny; i++) ax[1].push_back(2 + 0.75 * i); ax[2].push_back(z ? 4.5 : 0); for (int k = 0; k < 3; k++) check_values(f, *axes[k], ax[k], strf("axis %d", k));
    auto group = [&](const char* tag, int k0, const std::vector<std::string>& names) { auto v = p.all(tag); if (v.empty() && names.empty()) return; const Xml& gx = only(p, tag, f); if (gx.all("DataArray").size() != names.size()) fail("wrong-file", "%s holds %zu arrays as %s, expected %zu", rel(f).c_str(), gx.all("DataArray").size(), tag, names.size()); for (size_t k = 0; k < names.size(); k++) { std::vector<double> w; for (int i = 0; i < size(k0 + (int)k); i++) w.push_back(value(k0 + (int)k, r, i, last)); check_values(f, named(gx, names[k], "DataArray", f), w, names[k]); } };
    group("CellData", 0, cn); group("PointData", o.funcs, pn); note("rectilinear files checked");
  }
}
