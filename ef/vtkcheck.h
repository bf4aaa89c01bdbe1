// Reading back VTK files, and comparing them with what was to be written.
#pragma once
#pragma GCC diagnostic ignored "-Wunused-function"
#include "common.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#include <errno.h>
using namespace sim;
// ------------------------------------------------------------------ a small XML reader
struct Xml { std::string name, text; std::vector<std::pair<std::string, std::string>> attr; std::vector<Xml> kids;
  const std::string* get(const char* k) const { const std::string* r = nullptr; for (auto& a : attr) if (a.first == k) r = &a.second; return r; }
  std::vector<const Xml*> all(const char* n) const { std::vector<const Xml*> v; for (auto& k : kids) if (k.name == n) v.push_back(&k); return v; } };
struct XmlReader { const std::string& s; size_t i = 0; const char* file;
  [[noreturn]] void bad(const char* why) { fail("malformed-file", "%s is not well-formed: %s at byte %zu of %zu", file, why, i, s.size()); }
  void space() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
  std::string name() { size_t a = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("_:.-", s[i]))) i++; if (a == i) bad("a name is missing"); return s.substr(a, i - a); }
  std::string plain(const std::string& t) { std::string o; for (size_t k = 0; k < t.size(); k++) { if (t[k] == '<') bad("'<' in a value"); if (t[k] != '&') { o += t[k]; continue; } static const char* e[5][2] = {{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}}; bool hit = false; for (auto& x : e) if (!t.compare(k, strlen(x[0]), x[0])) { o += x[1]; k += strlen(x[0]) - 1; hit = true; break; } if (!hit) bad("a bare '&'"); } return o; }
  Xml node() {
    Xml n; if (i >= s.size() || s[i] != '<') bad("a tag is missing"); i++; n.name = name();
    for (;;) { space(); if (i >= s.size()) bad("it ends inside a tag"); if (s[i] == '>') { i++; break; } if (s[i] == '/' ) { i++; if (i >= s.size() || s[i] != '>') bad("a stray '/'"); i++; return n; } std::string k = name(); space(); if (i >= s.size() || s[i] != '=') bad("an attribute without value"); i++; space(); if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) bad("an attribute without quotes"); char q = s[i++]; size_t e = s.find(q, i); if (e == std::string::npos) bad("an attribute does not end"); for (auto& a : n.attr) if (a.first == k) bad("an attribute is given twice"); n.attr.push_back({k, plain(s.substr(i, e - i))}); i = e + 1; }
    for (;;) { size_t e = s.find('<', i); if (e == std::string::npos) { i = s.size(); bad("it ends inside an element"); } n.text += s.substr(i, e - i); i = e; if (!s.compare(i, 2, "</")) { i += 2; if (name() != n.name) bad("an element is closed under another name"); space(); if (i >= s.size() || s[i] != '>') bad("a closing tag does not end"); i++; return n; } if (!s.compare(i, 4, "<!--")) { size_t x = s.find("-->", i); if (x == std::string::npos) bad("a comment does not end"); i = x + 3; continue; } n.kids.push_back(node()); }
  }
  Xml file_root() { space(); if (!s.compare(i, 2, "<?")) { size_t e = s.find("?>", i); if (e == std::string::npos) bad("the declaration does not end"); i = e + 2; } space(); while (!s.compare(i, 4, "<!--")) { size_t e = s.find("-->", i); if (e == std::string::npos) bad("a comment does not end"); i = e + 3; space(); } Xml r = node(); space(); if (i != s.size()) bad("there is text behind its end"); return r; }
};
static std::string rel(const std::string& p) { std::string s = scratch() + "/"; return p.compare(0, s.size(), s) ? p : p.substr(s.size()); }
static bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); if (!f) fail("missing-file", "%s was not written", rel(p).c_str()); std::stringstream b; b << f.rdbuf(); return b.str(); }
static Xml read_xml(const std::string& p) { std::string s = slurp(p); std::string nm = rel(p); XmlReader r{s, 0, nm.c_str()}; return r.file_root(); }
static const Xml& only(const Xml& x, const char* n, const std::string& file) { auto v = x.all(n); if (v.size() != 1) fail("malformed-file", "%s has %zu %s elements in %s, expected one", rel(file).c_str(), v.size(), n, x.name.c_str()); return *v[0]; }
static std::vector<double> numbers(const Xml& x, const std::string& file) { std::vector<double> v; const char* p = x.text.c_str(); for (;;) { char* e; while (isspace((unsigned char)*p)) p++; if (!*p) return v; double d = strtod(p, &e); if (e == p) fail("malformed-file", "%s: text '%.20s' among the numbers of an array", rel(file).c_str(), p); v.push_back(d); p = e; } }
static long num_attr(const Xml& x, const char* k, const std::string& file) { auto a = x.get(k); if (!a) fail("malformed-file", "%s: %s has no %s", rel(file).c_str(), x.name.c_str(), k); return atol(a->c_str()); }
static const Xml& named(const Xml& x, const std::string& nm, const char* tag, const std::string& file) { const Xml* r = nullptr; for (auto a : x.all(tag)) if (a->get("Name") && *a->get("Name") == nm) { if (r) fail("wrong-file", "%s holds array '%s' twice", rel(file).c_str(), nm.c_str()); r = a; } if (!r) fail("wrong-file", "%s holds no array '%s'", rel(file).c_str(), nm.c_str()); return *r; }
static std::string dir_of(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : p.substr(0, k + 1); }
// ------------------------------------------------------------------ what a written mesh must say
struct CellBox { double x0, y0, x1, y1; };
struct Content { std::vector<CellBox> cells, leaves; std::vector<std::vector<double>> cell_data, point_data; };   // of one rank, in the mesh's cell order
static double fn_value(int k, double x, double y) { switch (k % 6) { case 0: return 1.5 * x - 2.25 * y + 3; case 1: return 100 * std::sin(x + 2 * y); case 2: return 12345.678 * x * y - 7; case 3: return -1e60 * (2 + std::sin(x + y)); case 4: return 3e-5 * (x - y); } return x > y ? 1 : -1; }
static void check_values(const std::string& file, const Xml& a, const std::vector<double>& want, const std::string& nm) {
  auto v = numbers(a, file); if (v.size() != want.size()) fail("wrong-file", "%s: array '%s' has %zu values, expected %zu", rel(file).c_str(), nm.c_str(), v.size(), want.size()); double lo = 1e300, hi = -1e300;
  for (size_t k = 0; k < v.size(); k++) { double tol = 6e-7 + 1e-12 * std::fabs(want[k]); if (!(std::fabs(v[k] - want[k]) <= tol)) fail("wrong-file", "%s: value %zu of array '%s' is %.9g, expected %.9g", rel(file).c_str(), k, nm.c_str(), v[k], want[k]); lo = std::min(lo, want[k]); hi = std::max(hi, want[k]); }
  auto mn = a.get("RangeMin"), mx = a.get("RangeMax"); if (!v.empty() && mn && mx && (std::fabs(atof(mn->c_str()) - lo) > 6e-7 + 1e-12 * std::fabs(lo) || std::fabs(atof(mx->c_str()) - hi) > 6e-7 + 1e-12 * std::fabs(hi))) fail("wrong-file", "%s: array '%s' says its range is %s..%s, it is %.9g..%.9g", rel(file).c_str(), nm.c_str(), mn->c_str(), mx->c_str(), lo, hi);
}
static void check_piece(const std::string& file, const Content& c, const std::vector<std::string>& cn, const std::vector<std::string>& pn) {
  Xml r = read_xml(file); if (r.name != "VTKFile" || !r.get("type") || *r.get("type") != "UnstructuredGrid") fail("wrong-file", "%s is not a VTK unstructured grid file", rel(file).c_str());
  const Xml& p = only(only(r, "UnstructuredGrid", file), "Piece", file); size_t nc = c.cells.size(); if (num_attr(p, "NumberOfCells", file) != (long)nc || num_attr(p, "NumberOfPoints", file) != (long)(4 * nc)) fail("wrong-file", "%s says it has %ld cells and %ld points, expected %zu cells", rel(file).c_str(), num_attr(p, "NumberOfCells", file), num_attr(p, "NumberOfPoints", file), nc);
  auto pts = numbers(only(only(p, "Points", file), "DataArray", file), file); const Xml& ce = only(p, "Cells", file); auto con = numbers(named(ce, "connectivity", "DataArray", file), file), off = numbers(named(ce, "offsets", "DataArray", file), file), typ = numbers(named(ce, "types", "DataArray", file), file);
  if (pts.size() != 12 * nc || con.size() != 4 * nc || off.size() < nc || typ.size() < nc) fail("wrong-file", "%s holds %zu coordinates, %zu corners, %zu offsets and %zu types for %zu cells", rel(file).c_str(), pts.size(), con.size(), off.size(), typ.size(), nc);
  for (size_t k = 0; k < nc; k++) {
    if (off[k] != 4 * (k + 1) || typ[k] != 9) fail("wrong-file", "%s: cell %zu ends at %g and has type %g", rel(file).c_str(), k, off[k], typ[k]); auto& b = c.cells[k]; double X[4] = {b.x0, b.x1, b.x1, b.x0}, Y[4] = {b.y0, b.y0, b.y1, b.y1};
    for (int q = 0; q < 4; q++) { long v = (long)con[4 * k + q]; if (v < 0 || v >= (long)(4 * nc)) fail("wrong-file", "%s: cell %zu uses point %ld", rel(file).c_str(), k, v); if (std::fabs(pts[3 * v] - X[q]) > 1e-6 || std::fabs(pts[3 * v + 1] - Y[q]) > 1e-6 || pts[3 * v + 2] != 0) fail("wrong-file", "%s: corner %d of cell %zu is at (%g,%g,%g), expected (%g,%g,0)", rel(file).c_str(), q, k, pts[3 * v], pts[3 * v + 1], pts[3 * v + 2], X[q], Y[q]); }
  }
  auto group = [&](const char* tag, const std::vector<std::string>& names, const std::vector<std::vector<double>>& data) { auto g = p.all(tag); if (g.empty() && names.empty()) return; const Xml& x = only(p, tag, file); if (x.all("DataArray").size() != names.size()) fail("wrong-file", "%s holds %zu arrays as %s, expected %zu", rel(file).c_str(), x.all("DataArray").size(), tag, names.size()); for (size_t k = 0; k < names.size(); k++) check_values(file, named(x, names[k], "DataArray", file), data[k], names[k]); };
  group("CellData", cn, c.cell_data); group("PointData", pn, c.point_data); note("pieces checked");
}
static void check_header(const std::string& file, const std::vector<std::string>& pieces, const std::vector<std::string>& cn, const std::vector<std::string>& pn) {
  Xml r = read_xml(file); if (r.name != "VTKFile" || !r.get("type") || *r.get("type") != "PUnstructuredGrid") fail("wrong-file", "%s is not a VTK parallel unstructured grid file", rel(file).c_str()); const Xml& g = only(r, "PUnstructuredGrid", file);
  std::vector<std::string> got; for (auto p : g.all("Piece")) { auto s = p->get("Source"); if (!s) fail("wrong-file", "%s has a piece without a file", rel(file).c_str()); got.push_back((*s)[0] == '/' ? *s : dir_of(file) + *s); }
  if (got.size() != pieces.size()) fail("wrong-file", "%s names %zu pieces, expected %zu", rel(file).c_str(), got.size(), pieces.size());
  for (size_t k = 0; k < pieces.size(); k++) { struct stat a, b; if (stat(got[k].c_str(), &a)) fail("wrong-file", "%s names piece '%s', which does not exist beside it", rel(file).c_str(), rel(got[k]).c_str()); if (stat(pieces[k].c_str(), &b) || a.st_ino != b.st_ino) fail("wrong-file", "%s names '%s' as piece %zu, expected '%s'", rel(file).c_str(), rel(got[k]).c_str(), k, rel(pieces[k]).c_str()); }
  const Xml& pp = only(only(g, "PPoints", file), "PDataArray", file); if (num_attr(pp, "NumberOfComponents", file) != 3) fail("wrong-file", "%s: points do not have three components", rel(file).c_str());
  auto group = [&](const char* tag, const std::vector<std::string>& names) { auto v = g.all(tag); if (v.empty() && names.empty()) return; const Xml& x = only(g, tag, file); if (x.all("PDataArray").size() != names.size()) fail("wrong-file", "%s declares %zu arrays as %s, expected %zu", rel(file).c_str(), x.all("PDataArray").size(), tag, names.size()); for (auto& nm : names) named(x, nm, "PDataArray", file); };
  group("PCellData", cn); group("PPointData", pn); note("headers checked");
}
// one array of a file written by p4est: base64 of deflated blocks with a base64 header of their sizes in front
static std::string unbase64(const std::string& t) { std::string o; unsigned acc = 0; int bits = 0; for (char c : t) { if (c == '=') break; int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (v < 0) continue; acc = acc << 6 | v; if ((bits += 6) >= 8) { bits -= 8; o += (char)(acc >> bits & 255); } } return o; }
static std::vector<float> packed_floats(const Xml& x, const std::string& file) {
  std::string t; for (char c : x.text) if (!isspace((unsigned char)c)) t += c; auto word = [&](const std::string& s, size_t k) { uint32_t v = 0; if (4 * k + 4 > s.size()) fail("malformed-file", "%s: the packed array '%s' is cut short", rel(file).c_str(), x.get("Name") ? x.get("Name")->c_str() : ""); memcpy(&v, s.data() + 4 * k, 4); return v; };
  uint32_t nb = word(unbase64(t.substr(0, 8)), 0); size_t head = (4 * (3 + (size_t)nb) + 2) / 3 * 4; std::string h = unbase64(t.substr(0, head)), z = unbase64(t.size() > head ? t.substr(head) : ""), out; size_t at = 0;
  for (uint32_t k = 0; k < nb; k++) { uLongf len = k + 1 < nb || !word(h, 2) ? word(h, 1) : word(h, 2); size_t zl = word(h, 3 + k); if (at + zl > z.size() || len > 1u << 24) fail("malformed-file", "%s: a packed array is cut short", rel(file).c_str()); std::string b(len, 0); if (uncompress((Bytef*)&b[0], &len, (const Bytef*)z.data() + at, zl) != Z_OK) fail("malformed-file", "%s: a packed array does not unpack", rel(file).c_str()); b.resize(len); out += b; at += zl; }
  std::vector<float> v(out.size() / 4); if (!v.empty()) memcpy(&v[0], out.data(), 4 * v.size()); return v;
}
static void check_forest_files(const std::string& base, const std::vector<Content>& c) { // written by p4est under a name chosen by the code: the leaves
  std::string h = base + ".pvtu", s = slurp(h); if (s.find("</VTKFile>") == std::string::npos) fail("wrong-file", "%s is incomplete", rel(h).c_str()); size_t at = 0; int pieces = 0; while ((at = s.find("<Piece ", at)) != std::string::npos) { at++; pieces++; } if (pieces != (int)c.size()) fail("wrong-file", "%s names %d pieces, expected %zu", rel(h).c_str(), pieces, c.size());
  for (size_t r = 0; r < c.size(); r++) { std::string f = base + strf("_%04d.vtu", (int)r), t = slurp(f); auto& lv = c[r].leaves; if (t.find("</VTKFile>") == std::string::npos) fail("wrong-file", "%s is incomplete", rel(f).c_str()); std::string want = strf("NumberOfCells=\"%zu\"", lv.size()); if (t.find(want) == std::string::npos) fail("wrong-file", "%s does not have %zu cells", rel(f).c_str(), lv.size()); note("forest pieces checked");
    Xml x = read_xml(f); const Xml& p = only(only(x, "UnstructuredGrid", f), "Piece", f); const Xml& a = only(only(p, "Points", f), "DataArray", f); auto ty = a.get("type"), fm = a.get("format"); std::vector<double> q; if (fm && *fm == "ascii") q = numbers(a, f); else if (fm && *fm == "binary" && ty && *ty == "Float32" && x.get("compressor")) { auto v = packed_floats(a, f); q.assign(v.begin(), v.end()); } else continue;
    if (q.size() != 12 * lv.size()) fail("wrong-file", "%s holds %zu coordinates for %zu leaves", rel(f).c_str(), q.size(), lv.size());
    for (size_t k = 0; k < lv.size(); k++) { double b[4] = {1e300, 1e300, -1e300, -1e300}; for (int m = 0; m < 4; m++) { double X = q[12 * k + 3 * m], Y = q[12 * k + 3 * m + 1]; b[0] = std::min(b[0], X); b[1] = std::min(b[1], Y); b[2] = std::max(b[2], X); b[3] = std::max(b[3], Y); }
      double w[4] = {lv[k].x0, lv[k].y0, lv[k].x1, lv[k].y1}; for (int m = 0; m < 4; m++) if (!(std::fabs(b[m] - w[m]) <= 1e-6 * std::max(std::fabs(w[0]) + std::fabs(w[2]), std::fabs(w[1]) + std::fabs(w[3])) + 1e-6)) fail("wrong-file", "%s: leaf %zu is drawn over [%g,%g]x[%g,%g], it covers [%g,%g]x[%g,%g]", rel(f).c_str(), k, b[0], b[2], b[1], b[3], w[0], w[2], w[1], w[3]); }
    note("leaves drawn", lv.size()); }
}
static void local_cells(MeshT& mesh, Content& c) { for (auto& kv : mesh.quadtree.map) if (kv.second && kv.second->leaf) { auto& g = kv.second->data.grid(); c.leaves.push_back({g.xLower(), g.yLower(), g.xUpper(), g.yUpper()}); for (int i = 0; i < (int)g.nx(); i++) for (int j = 0; j < (int)g.ny(); j++) c.cells.push_back({g.xLower() + i * g.dx(), g.yLower() + j * g.dy(), g.xLower() + (i + 1) * g.dx(), g.yLower() + (j + 1) * g.dy()}); } }
static void check_reported(const char* what, const std::vector<std::string>& error, int n) { auto fr = disk_fired(); for (int r = 0; r < n; r++) if ((fr.ranks >> r & 1) && error[r].empty()) fail("unreported-failure", "writing %s met %s on rank %d, and the call returned there as if it had succeeded", what, fr.open_fail ? "a file that could not be opened" : fr.write_err ? "a write error" : "an error on closing a file", r); for (int r = 0; r < n; r++) if (!((fr.ranks | fr.soft) >> r & 1) && !error[r].empty()) fail("false-failure", "writing %s failed on rank %d without cause: %s", what, r, error[r].c_str()); if (fr.ranks) note("failures reported"); }
