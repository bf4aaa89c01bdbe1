// Workloads on the MPI layer: C07 (objects arrive intact), C16 (sub-communicators), C15 (distributed vectors and matrices).
#include "common.h"
#include <algorithm>
#include <cstring>
#include <limits>
#include <sys/mman.h>
using namespace sim;
static unsigned mix(unsigned h) { h ^= h >> 16; h *= 0x7feb352du; h ^= h >> 15; h *= 0x846ca68bu; h ^= h >> 16; return h; }
// An object that ends where readable memory ends: code that reads past it dies.
template<class T> struct Edge {
  static constexpr size_t P = 4096; char* m = nullptr; size_t len = 0; T* p = nullptr;
  template<class... A> explicit Edge(A&&... a) { Quiet q; len = (sizeof(T) + P - 1) / P * P; m = (char*)mmap(nullptr, len + P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) infra("mmap"); mprotect(m + len, P, PROT_NONE); p = new (m + (len - sizeof(T)) / alignof(T) * alignof(T)) T(std::forward<A>(a)...); }
  ~Edge() { p->~T(); munmap(m, len + P); } Edge(const Edge&) = delete; T& operator*() { return *p; } T* operator->() { return p; }
};
// ------------------------------------------------------------------ values of every supported type, made from a number
enum Type { T_INT, T_DOUBLE, T_CHAR, T_BOOL, T_LONG, T_FLOAT, T_UINT, T_SHORT, T_SCHAR, T_UCHAR, T_USHORT, T_ULONG, T_ULL, T_LDOUBLE, T_WCHAR, T_STRING, T_VINT, T_VDOUBLE, T_VCHAR, T_VECTOR, T_IVECTOR, T_MATRIX, T_IMATRIX, T_NODE, T_NODEV, N_P2P, T_GRID = N_P2P, T_PATCH, T_NODEP, N_TYPES };
static const char* tname[N_TYPES] = {"int", "double", "char", "bool", "long", "float", "unsigned", "short", "signed char", "unsigned char", "unsigned short", "unsigned long", "unsigned long long", "long double", "wchar_t", "string", "vector of int", "vector of double", "vector of char", "Vector<double>", "Vector<int>", "Matrix<double>", "Matrix<int>", "node of double", "node of Vector", "grid", "patch", "node of patch"};
struct Val { unsigned h; int size; };        // what an object holds: a number and how large it is
// the i-th element of an array: mostly different numbers of either sign, sometimes all zero, all equal, or (floating-point) huge, tiny and infinite
template<class E> static E elem(unsigned h, unsigned i) {
  unsigned m = mix(h + i); switch (h % 13) { case 0: return (E)0; case 1: return (E)(mix(h) >> 3); }
  if constexpr (std::is_floating_point<E>::value) { if (h % 13 == 2) switch (m % 5) { case 0: return (E)1e300 * (m & 64 ? 1 : -1); case 1: return std::numeric_limits<E>::infinity(); case 2: return std::numeric_limits<E>::denorm_min(); case 3: return -(E)0.1; } return (E)(int)m / (E)3; }
  return (E)(int)m;
}
template<class T> struct V { static void set(T& x, Val v) { x = (T)(mix(v.h) >> 3); } static bool is(T& x, Val v) { return x == (T)(mix(v.h) >> 3); } };
template<> struct V<bool> { static void set(bool& x, Val v) { x = v.h & 1; } static bool is(bool& x, Val v) { unsigned char c; memcpy(&c, &x, 1); return c == (v.h & 1); } };
template<> struct V<double> { static void set(double& x, Val v) { x = (int)mix(v.h) / 7.0; } static bool is(double& x, Val v) { return x == (int)mix(v.h) / 7.0; } };
template<> struct V<std::string> { static std::string mk(Val v) { std::string s(v.size, 0); for (int i = 0; i < v.size; i++) s[i] = char(mix(v.h + i)); return s; } static void set(std::string& x, Val v) { x = mk(v); } static bool is(std::string& x, Val v) { return x == mk(v); } };
template<class E> struct V<std::vector<E>> { static void set(std::vector<E>& x, Val v) { x.resize(v.size); for (int i = 0; i < v.size; i++) x[i] = elem<E>(v.h, i); } static bool is(std::vector<E>& x, Val v) { if ((int)x.size() != v.size) return false; for (int i = 0; i < v.size; i++) if (x[i] != elem<E>(v.h, i)) return false; return true; } };
template<class E> struct V<EF::Vector<E>> { static void set(EF::Vector<E>& x, Val v) { std::vector<E> d; V<std::vector<E>>::set(d, v); x = EF::Vector<E>(d); } static bool is(EF::Vector<E>& x, Val v) { if ((int)x.size() != v.size) return false; auto d = x.data(); return V<std::vector<E>>::is(d, v); } };
template<class E> struct V<EF::Matrix<E>> {
  static void dims(Val v, int& r, int& c) { if (v.size == 0) { r = mix(v.h + 5) % 4 == 0 ? mix(v.h) % 9 : 0; c = mix(v.h + 5) % 4 == 1 ? mix(v.h) % 9 : 0; return; } if (v.size == 1) { r = c = 1; return; } c = 1 + mix(v.h) % (v.size < 40 ? v.size : 40); r = v.size / c; }
  static void set(EF::Matrix<E>& x, Val v) { int r, c; dims(v, r, c); std::vector<E> d; V<std::vector<E>>::set(d, {v.h, r * c}); x = EF::Matrix<E>(r, c, d); }
  static bool is(EF::Matrix<E>& x, Val v) { int r, c; dims(v, r, c); if ((int)x.nrows() != r || (int)x.ncols() != c) return false; auto d = x.data(); return V<std::vector<E>>::is(d, {v.h, r * c}); }
};
template<> struct V<Grid> {
  static Grid mk(Val v) { unsigned h = mix(v.h); double a = (int)(h % 1000) / 10.0 - 50, w = 1 + (h >> 10) % 9, c = (int)((h >> 5) % 777) / 7.0, e = 0.125 * (1 + (h >> 14) % 30); return Grid(MPI_COMM_SELF, 1 + h % 60, a, a + w, 1 + (h >> 8) % 50, c, c + e); }
  static void set(Grid& x, Val v) { x = mk(v); }
  static bool is(Grid& x, Val v) { Grid g = mk(v); return x.nx() == g.nx() && x.ny() == g.ny() && x.xLower() == g.xLower() && x.xUpper() == g.xUpper() && x.yLower() == g.yLower() && x.yUpper() == g.yUpper() && x.dx() == g.dx() && x.dy() == g.dy() && x(0, 1) == g(0, 1) && x(1, 1) == g(1, 1); }
};
template<> struct V<Patch> {
  static Val part(Val v, int k) { return {mix(v.h + k * 977), v.size == 0 ? 0 : (int)(mix(v.h ^ (k * 31)) % (unsigned)(v.size + 1))}; }
  static void set(Patch& p, Val v) { V<Grid>::set(p.grid(), v); p.n_coarsens = mix(v.h) % 5; V<EF::Matrix<double>>::set(p.matrixX(), part(v, 1)); V<EF::Matrix<double>>::set(p.matrixH(), part(v, 2)); V<EF::Matrix<double>>::set(p.matrixS(), part(v, 3)); V<EF::Matrix<double>>::set(p.matrixT(), part(v, 4)); EF::Vector<double>* w[6] = {&p.vectorU(), &p.vectorG(), &p.vectorV(), &p.vectorF(), &p.vectorH(), &p.vectorW()}; for (int i = 0; i < 6; i++) V<EF::Vector<double>>::set(*w[i], part(v, 5 + i)); }
  static bool is(Patch& p, Val v) { if (!V<Grid>::is(p.grid(), v) || p.n_coarsens != (int)(mix(v.h) % 5) || !V<EF::Matrix<double>>::is(p.matrixX(), part(v, 1)) || !V<EF::Matrix<double>>::is(p.matrixH(), part(v, 2)) || !V<EF::Matrix<double>>::is(p.matrixS(), part(v, 3)) || !V<EF::Matrix<double>>::is(p.matrixT(), part(v, 4))) return false; EF::Vector<double>* w[6] = {&p.vectorU(), &p.vectorG(), &p.vectorV(), &p.vectorF(), &p.vectorH(), &p.vectorW()}; for (int i = 0; i < 6; i++) if (!V<EF::Vector<double>>::is(*w[i], part(v, 5 + i))) return false; return true; }
};
template<class T> struct V<EF::Node<T>> {
  static void set(EF::Node<T>& n, Val v) { V<T>::set(n.data, v); V<std::string>::set(n.path, {v.h + 1, (int)(v.h % 30)}); n.level = v.h % 20; n.pfirst = v.h % 7; n.plast = v.h % 7 + v.h % 5; n.leaf = v.h & 1; }
  static bool is(EF::Node<T>& n, Val v) { unsigned char l; memcpy(&l, &n.leaf, 1); return V<T>::is(n.data, v) && V<std::string>::is(n.path, {v.h + 1, (int)(v.h % 30)}) && n.level == (int)(v.h % 20) && n.pfirst == (int)(v.h % 7) && n.plast == (int)(v.h % 7 + v.h % 5) && l == (v.h & 1); }
};
// ------------------------------------------------------------------ transfers
struct Transfer { enum Kind { P2P, BCAST, REDUCE, GATHER, GATHERV } kind; int type, a, b, tag; Val v, old; int comm; int noise = 0; };
struct Comms { std::vector<MPI_Comm> c; std::vector<std::vector<int>> members; int rank_in(int k, int me) const { for (size_t i = 0; i < members[k].size(); i++) if (members[k][i] == me) return (int)i; return -1; } };
static void said_ok(int e, const char* what) { if (e != MPI_SUCCESS) fail("false-failure", "%s returned error %d although every call underneath succeeded", what, e); }
template<class T> static void move_one(const Transfer& t, const Comms& cs, int me, bool known_sender) {
  MPI_Comm c = cs.c[t.comm]; int r = cs.rank_in(t.comm, me); if (r < 0) return;
  if (t.kind == Transfer::P2P) {
    if (r == t.a) { Edge<T> x; { Quiet q; V<T>::set(*x, t.v); } said_ok(EF::MPI::send(*x, t.b, t.tag, c), "sending"); if (!V<T>::is(*x, t.v)) fail("corrupted", "sending a %s changed the sender's object", tname[t.type]); }
    if (r == t.b) { Edge<T> x; { Quiet q; V<T>::set(*x, t.old); } MPI_Status st; said_ok(EF::MPI::receive(*x, known_sender ? t.a : MPI_ANY_SOURCE, t.tag, c, &st), "receiving"); if (st.MPI_SOURCE != t.a || st.MPI_TAG != t.tag) fail("corrupted", "the status of a %s received from rank %d with tag %d names rank %d and tag %d", tname[t.type], t.a, t.tag, st.MPI_SOURCE, st.MPI_TAG); if (!V<T>::is(*x, t.v)) fail("corrupted", "a %s of size %d sent from rank %d to rank %d with tag %d did not arrive intact (receiver held one of size %d)", tname[t.type], t.v.size, t.a, t.b, t.tag, t.old.size); note("objects received"); }
  }
}
template<class T> static void bcast_one(const Transfer& t, const Comms& cs, int me) {
  MPI_Comm c = cs.c[t.comm]; int r = cs.rank_in(t.comm, me); if (r < 0) return; Edge<T> x; { Quiet q; V<T>::set(*x, r == t.a ? t.v : Val{t.old.h + r, t.old.size ? (t.old.size + r) % 50 : 0}); }
  { int e = EF::MPI::broadcast(*x, t.a, c); if (t.type != T_GRID && t.type != T_PATCH) said_ok(e, "broadcasting"); } if (!V<T>::is(*x, t.v)) fail("corrupted", "a %s of size %d broadcast from rank %d of %zu is not what rank %d %s", tname[t.type], t.v.size, t.a, cs.members[t.comm].size(), r, r == t.a ? "sent (the sender's object changed)" : "received"); note("objects broadcast");
}
template<class E> static void reduce_one(const Transfer& t, const Comms& cs, int me) {
  MPI_Comm c = cs.c[t.comm]; int r = cs.rank_in(t.comm, me), n = (int)cs.members[t.comm].size(); if (r < 0) return; MPI_Op op = t.b == 0 ? MPI_SUM : t.b == 1 ? MPI_MAX : MPI_MIN;
  auto val = [&](int who, int i) { return (E)(int)(mix(t.v.h + 131 * who + i) % 100000) - (E)50000; };
  auto want = [&](int i) { E w = val(0, i); for (int k = 1; k < n; k++) { E v = val(k, i); w = t.b == 0 ? w + v : t.b == 1 ? std::max(w, v) : std::min(w, v); } return w; };
  if (t.v.size % 2 == 0) { E s = val(r, 0), d = (E)77; said_ok(EF::MPI::allreduce(s, d, op, c), "reducing"); if (d != want(0) || s != val(r, 0)) fail("corrupted", "all-reduce of a %s over %d ranks gives the wrong result on rank %d", sizeof(E) == 8 ? "double" : "int", n, r); }
  else { std::vector<E> s(t.v.size), d(t.v.size, (E)77); for (int i = 0; i < t.v.size; i++) s[i] = val(r, i); said_ok(EF::MPI::allreduce(s, d, op, c), "reducing"); for (int i = 0; i < t.v.size; i++) if (d[i] != want(i) || s[i] != val(r, i)) fail("corrupted", "all-reduce of %d values over %d ranks gives the wrong result on rank %d at %d", t.v.size, n, r, i); }
  note("reductions");
}
template<class C, class E> static void gather_one(const Transfer& t, const Comms& cs, int me) {
  MPI_Comm c = cs.c[t.comm]; int r = cs.rank_in(t.comm, me), n = (int)cs.members[t.comm].size(); if (r < 0) return;
  std::vector<int> cnt(n), dis(n); int at = 0, gap = t.kind == Transfer::GATHERV ? t.b % 3 : 0; for (int k = 0; k < n; k++) { cnt[k] = t.kind == Transfer::GATHER ? 1 + t.v.size % 40 : (int)(mix(t.v.h + k) % 30); dis[k] = at; at += cnt[k] + gap; }
  auto val = [&](int who, int i) { return (E)(int)(mix(t.v.h + 1000 * who + i) % 1000000); };
  C s(std::vector<E>(cnt[r])), d(std::vector<E>(at, (E)-5)); for (int i = 0; i < cnt[r]; i++) s[i] = val(r, i);
  if (t.kind == Transfer::GATHER) said_ok(EF::MPI::allgather(s, d, cnt[0], c), "gathering"); else said_ok(EF::MPI::allgatherv(s, d, cnt, dis, c), "gathering");
  for (int k = 0; k < n; k++) for (int i = 0; i < cnt[k] + gap; i++) { E w = i < cnt[k] ? val(k, i) : (E)-5; if (d[dis[k] + i] != w) fail("corrupted", "gathering over %d ranks: rank %d has a wrong value at position %d of rank %d's part", n, r, i, k); }
  for (int i = 0; i < cnt[r]; i++) if (s[i] != val(r, i)) fail("corrupted", "gathering changed the sender's values"); note("gathers");
}
static void gather_scalar(const Transfer& t, const Comms& cs, int me) {
  MPI_Comm c = cs.c[t.comm]; int r = cs.rank_in(t.comm, me), n = (int)cs.members[t.comm].size(); if (r < 0) return; std::vector<double> d(n + 1, -5); double s = t.v.h % 1000 + r;
  if (t.kind == Transfer::GATHER) said_ok(EF::MPI::allgather(s, d[0], 1, c), "gathering"); else { std::vector<int> cnt(n, 1), dis; for (int k = 0; k < n; k++) dis.push_back(n - 1 - k); said_ok(EF::MPI::allgatherv(s, d[0], cnt, dis, c), "gathering"); }
  for (int k = 0; k < n; k++) if (d[t.kind == Transfer::GATHER ? k : n - 1 - k] != t.v.h % 1000 + k) fail("corrupted", "gathering one number per rank over %d ranks: rank %d has a wrong value from rank %d", n, r, k); if (d[n] != -5) fail("corrupted", "gathering wrote past its result"); note("gathers");
}
static void run_transfer(const Transfer& t, const Comms& cs, int me, bool known) {
  MPI_Comm c = cs.c[t.comm]; int r = cs.rank_in(t.comm, me); if (r < 0) return; MPI_Request q = MPI_REQUEST_NULL; int out = 0, in = 0; // other traffic between the same ranks, taken in the opposite order
  if (t.kind == Transfer::P2P && t.noise && r == t.a) { out = t.noise; MPI_Isend(&out, 1, MPI_INT, t.b, 1500 + t.noise, c, &q); }
#define P(TY, CT) case TY: if (t.kind == Transfer::P2P) move_one<CT>(t, cs, me, known); else bcast_one<CT>(t, cs, me); break
#define B(TY, CT) case TY: bcast_one<CT>(t, cs, me); break
  if (t.kind == Transfer::P2P || t.kind == Transfer::BCAST) switch (t.type) {
    P(T_INT, int); P(T_DOUBLE, double); P(T_CHAR, char); P(T_BOOL, bool); P(T_LONG, long); P(T_FLOAT, float); P(T_UINT, unsigned); P(T_SHORT, short); P(T_SCHAR, signed char); P(T_UCHAR, unsigned char); P(T_USHORT, unsigned short); P(T_ULONG, unsigned long); P(T_ULL, unsigned long long); P(T_LDOUBLE, long double); P(T_WCHAR, wchar_t);
    P(T_STRING, std::string); P(T_VINT, std::vector<int>); P(T_VDOUBLE, std::vector<double>); P(T_VCHAR, std::vector<char>); P(T_VECTOR, EF::Vector<double>); P(T_IVECTOR, EF::Vector<int>); P(T_MATRIX, EF::Matrix<double>); P(T_IMATRIX, EF::Matrix<int>); P(T_NODE, EF::Node<double>); P(T_NODEV, EF::Node<EF::Vector<double>>);
    B(T_GRID, Grid); B(T_PATCH, Patch); B(T_NODEP, EF::Node<Patch>);
  }
  else if (t.kind == Transfer::REDUCE) switch (t.type % 5) { case 0: reduce_one<int>(t, cs, me); break; case 1: reduce_one<double>(t, cs, me); break; case 2: reduce_one<long>(t, cs, me); break; case 3: reduce_one<float>(t, cs, me); break; case 4: reduce_one<unsigned>(t, cs, me); break; }
  else switch (t.type % 5) { case 0: gather_one<std::vector<int>, int>(t, cs, me); break; case 1: gather_one<std::vector<double>, double>(t, cs, me); break; case 2: gather_one<EF::Vector<double>, double>(t, cs, me); break; case 3: gather_one<EF::Vector<int>, int>(t, cs, me); break; case 4: gather_scalar(t, cs, me); break; }
  if (t.kind == Transfer::P2P && t.noise) { if (r == t.b) { MPI_Status st; MPI_Recv(&in, 1, MPI_INT, t.a, 1500 + t.noise, c, &st); if (in != t.noise) fail("corrupted", "another message between the same ranks arrived changed"); } if (r == t.a) MPI_Wait(&q, MPI_STATUS_IGNORE); }
}
extern "C" void workload_transfers(const char*) { // C07
  int n = 2 + gen(5, "ranks"); if (gen(20, "many ranks") == 19) n += gen(13, "more ranks"); int ncomm = 1 + gen(3, "communicators"), k = 1 + gen(10, "transfers"); bool known = gen(3, "any source") != 2;
  std::vector<std::vector<int>> members; std::vector<int> all; for (int i = 0; i < n; i++) all.push_back(i); members.push_back(all); std::vector<int> how{0};
  for (int i = 1; i < ncomm; i++) { int h = gen(3, "kind of communicator"); how.push_back(h); if (h == 0) members.push_back(all); else if (h == 1) { int a = gen(n, "first"), b = a + gen(n - a, "last"); std::vector<int> m; for (int x = a; x <= b; x++) m.push_back(x); members.push_back(m); } else { std::vector<int> m = all; std::reverse(m.begin(), m.end()); members.push_back(m); } }
  static const int sizes[8] = {3, 0, 1, 17, 100, 640, 4100, 20000}; std::vector<Transfer> ts; std::string txt;
  for (int i = 0; i < k; i++) {
    Transfer t; int kd = gen(8, "kind"); t.kind = kd < 3 ? Transfer::P2P : kd < 6 ? Transfer::BCAST : kd == 6 ? Transfer::REDUCE : gen(2, "v") ? Transfer::GATHERV : Transfer::GATHER; t.comm = gen(ncomm, "communicator"); int m = (int)members[t.comm].size(); if (t.kind == Transfer::P2P && m < 2) t.kind = Transfer::BCAST;
    t.type = gen(t.kind == Transfer::P2P ? N_P2P : N_TYPES, "type"); t.a = gen(m, "root or source"); t.b = t.kind == Transfer::P2P ? (t.a + 1 + gen(m - 1, "destination")) % m : gen(3, "operation"); t.tag = known ? gen(40, "tag") * 5 : i * 5; int big = t.type >= T_PATCH ? 6 : 8; t.v = {(unsigned)gen(100000, "value"), sizes[gen(big, "size")]}; if (gen(6, "other size") == 5) { if (gen(2, "any")) t.v.size = gen(3000, "size"); else t.v.size = std::max(0, (1 << (5 + gen(t.type >= T_PATCH ? 7 : 16, "power of two"))) - 1 + gen(3, "around it")); } t.old = {(unsigned)gen(100000, "old value"), sizes[gen(6, "old size")]}; if (gen(3, "other traffic") == 2) t.noise = 1 + i; ts.push_back(t);
    static const char* kn[5] = {"send", "broadcast", "reduce", "gather", "gatherv"}; txt += strf("%s%s %s(%d) %d>%d tag %d on %d%s", i ? ", " : "", kn[t.kind], t.kind <= Transfer::BCAST ? tname[t.type] : "values", t.v.size, t.a, t.b, t.tag, t.comm, t.noise ? "!" : "");
  }
  label(strf("%d ranks, %d communicators%s: ", n, ncomm, known ? "" : ", any source") + txt);
  launch(n, [&](int me) {
    Rank r; r.start(); Comms cs; cs.members = members;
    for (int i = 0; i < ncomm; i++) { MPI_Comm c = MPI_COMM_WORLD; if (i) { if (how[i] == 0) MPI_Comm_dup(MPI_COMM_WORLD, &c); else if (how[i] == 1) { c = MPI_COMM_NULL; EF::MPI::communicatorSubsetRange(MPI_COMM_WORLD, members[i].front(), members[i].back(), 3, &c); } else MPI_Comm_split(MPI_COMM_WORLD, 0, n - me, &c); } cs.c.push_back(c); }
    for (auto& t : ts) run_transfer(t, cs, me, known);
    for (int i = 1; i < ncomm; i++) if (cs.c[i] != MPI_COMM_NULL) MPI_Comm_free(&cs.c[i]);
  });
}

// ------------------------------------------------------------------ C16
struct Sub { int parent, a, b, tag; std::vector<int> members; std::string name; bool everyone, free_after; };
extern "C" void workload_subcomms(const char*) {
  int n = 1 + gen(9, "ranks"); if (gen(20, "many ranks") == 19) n += gen(13, "more ranks"); int k = 1 + gen(8, "communicators"); std::vector<Sub> s; std::vector<int> world; for (int i = 0; i < n; i++) world.push_back(i); std::string txt; bool named = gen(2, "named");
  for (int i = 0; i < k; i++) { Sub x; x.parent = gen(3, "nested") == 2 ? gen(i + 1, "parent") - 1 : -1; auto& pm = x.parent < 0 ? world : s[x.parent].members; int m = (int)pm.size(); x.a = gen(m, "first"); x.b = x.a + gen(m - x.a, "last"); x.tag = gen(4, "tag"); for (int j = x.a; j <= x.b; j++) x.members.push_back(pm[j]); x.everyone = gen(2, "all call"); x.free_after = gen(3, "freed at once") == 2; if (named && gen(2, "name")) { int len = gen(60, "name length"); for (int j = 0; j < len; j++) x.name += char('a' + (j * 7 + i) % 26); } s.push_back(x); txt += strf("%s%d:%d of %d%s", i ? ", " : "", x.a, x.b, x.parent, x.everyone ? "" : " (members only)"); }
  for (auto& x : s) if (x.parent >= 0) s[x.parent].free_after = false;
  int rot = gen(5, "order of use"), msgs = 1 + gen(3, "messages"), tag = gen(3, "message tag"); bool any = gen(2, "any source"), coll = gen(2, "collectives");
  label(strf("%d ranks; ranges ", n) + txt + strf("; %d rounds%s%s", msgs, any ? ", any source" : "", coll ? ", collectives" : ""));
  launch(n, [&](int me) {
    Rank r; r.start(); std::vector<MPI_Comm> c(k, MPI_COMM_NULL);
    auto rank_of = [&](const std::vector<int>& m) { for (size_t i = 0; i < m.size(); i++) if (m[i] == me) return (int)i; return -1; };
    for (int i = 0; i < k; i++) {
      auto& x = s[i]; MPI_Comm par = x.parent < 0 ? MPI_COMM_WORLD : c[x.parent]; bool in_parent = par != MPI_COMM_NULL, in = rank_of(x.members) >= 0; if (!in_parent || (!in && !x.everyone)) continue;
      MPI_Comm o = (MPI_Comm)(void*)&n; EF::MPI::communicatorSubsetRange(par, x.a, x.b, x.tag, &o);
      if (!in) { if (o != MPI_COMM_NULL) fail("wrong-communicator", "rank %d got a communicator for ranks it is not among", me); continue; }
      if (o == MPI_COMM_NULL) fail("wrong-communicator", "rank %d got no communicator for range %d:%d", me, x.a, x.b); c[i] = o; int sz, rk; MPI_Comm_size(o, &sz); MPI_Comm_rank(o, &rk);
      if (sz != (int)x.members.size() || rk != rank_of(x.members)) fail("wrong-communicator", "rank %d is %d of %d in the communicator for %d:%d, expected %d of %zu", me, rk, sz, x.a, x.b, rank_of(x.members), x.members.size());
      { Quiet q; MPI_Group g, w; MPI_Comm_group(o, &g); MPI_Comm_group(MPI_COMM_WORLD, &w); for (int j = 0; j < sz; j++) { int t; MPI_Group_translate_ranks(g, 1, &j, w, &t); if (t != x.members[j]) fail("wrong-communicator", "member %d of the communicator for %d:%d is rank %d, expected %d", j, x.a, x.b, t, x.members[j]); } MPI_Group_free(&g); MPI_Group_free(&w); }
      std::string pn = EF::MPI::communicatorGetName(par), want = pn + "_sub_range={" + std::to_string(x.a) + ":" + std::to_string(x.b) + "}", nm = EF::MPI::communicatorGetName(o); want = want.substr(0, MPI_MAX_OBJECT_NAME - 1);
      if (nm.find(want.size() < MPI_MAX_OBJECT_NAME - 1 ? std::to_string(x.a) + ":" + std::to_string(x.b) : "") == std::string::npos) fail("wrong-name", "the communicator for %d:%d is called '%s'", x.a, x.b, nm.c_str());
      if (!x.name.empty()) { EF::MPI::communicatorSetName(o, x.name); std::string back = EF::MPI::communicatorGetName(o); if (back != x.name) fail("wrong-name", "a communicator named '%s' says it is '%s'", x.name.c_str(), back.c_str()); note("named"); }
      int v; if (MPI_Comm_compare(o, par, &v), v == MPI_IDENT) fail("wrong-communicator", "the sub-communicator is its parent"); note("sub-communicators"); if (sz > 1) note("with several ranks");
    }
    if (EF::MPI::communicatorGetName(MPI_COMM_WORLD) != "MPI_COMM_WORLD") fail("wrong-name", "the world communicator's name changed to '%s'", EF::MPI::communicatorGetName(MPI_COMM_WORLD).c_str());
    // traffic: on every communicator and the world, each member sends to the next with one tag; each rank takes them in its own order
    for (int m = 0; m < msgs; m++) {
      std::vector<MPI_Request> rq; std::vector<std::array<int, 3>> out(k + 1); std::vector<int> order; for (int i = 0; i <= k; i++) order.push_back(i); std::rotate(order.begin(), order.begin() + (me * rot + m) % (k + 1), order.end());
      for (int i : order) { MPI_Comm o = i == k ? MPI_COMM_WORLD : c[i]; if (o == MPI_COMM_NULL) continue; auto& mem = i == k ? world : s[i].members; int rk = rank_of(mem), sz = (int)mem.size(); out[i] = {i, rk, m}; MPI_Request q; MPI_Isend(out[i].data(), 3, MPI_INT, (rk + 1) % sz, tag, o, &q); rq.push_back(q); }
      if (me % 2) std::reverse(order.begin(), order.end());
      for (int i : order) { MPI_Comm o = i == k ? MPI_COMM_WORLD : c[i]; if (o == MPI_COMM_NULL) continue; auto& mem = i == k ? world : s[i].members; int rk = rank_of(mem), sz = (int)mem.size(), from = (rk + sz - 1) % sz; std::array<int, 3> in{-1, -1, -1}; MPI_Status st; MPI_Recv(in.data(), 3, MPI_INT, any ? MPI_ANY_SOURCE : from, tag, o, &st); if (in[0] != i || in[1] != from || in[2] != m || st.MPI_SOURCE != from) fail("mixed-traffic", "rank %d received on communicator %d a message sent on communicator %d by its rank %d in round %d, expected rank %d in round %d", me, i, in[0], in[1], in[2], from, m); note("messages checked"); }
      MPI_Waitall((int)rq.size(), rq.data(), MPI_STATUSES_IGNORE);
      if (coll) for (int i = 0; i <= k; i++) { MPI_Comm o = i == k ? MPI_COMM_WORLD : c[i]; if (o == MPI_COMM_NULL) continue; auto& mem = i == k ? world : s[i].members; int v = 1 << me, w = 0, want = 0; for (int x : mem) want += 1 << x; MPI_Allreduce(&v, &w, 1, MPI_INT, MPI_SUM, o); if (w != want) fail("mixed-traffic", "rank %d: the members of communicator %d sum to %x, expected %x", me, i, w, want); }
    }
    for (int i = k - 1; i >= 0; i--) if (c[i] != MPI_COMM_NULL) MPI_Comm_free(&c[i]);
    Live l = live(); if (l.groups) fail("leak", "rank %d: %lld groups made for sub-communicators were not freed", me, (long long)l.groups);
  });
}
