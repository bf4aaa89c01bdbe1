// The simulator's own MPI against the standard: operations the code under test does not use today, but a change might.
#include "common.h"
#include <cstring>
using namespace sim;
#define WANT(c) do { if (!(c)) fail("self", "line %d: " #c, __LINE__); } while (0)
extern "C" void workload_selfcheck(const char*) {
  int n = 2 + gen(4, "ranks"), len = gen(50, "length"), root = gen(n, "root"); label(strf("%d ranks, %d, root %d", n, len, root));
  launch(n, [&](int me) {
    Rank r; r.start(); MPI_Comm c = MPI_COMM_WORLD; MPI_Request q; MPI_Status st; std::vector<int> a(len + 1), b(len + 1, -1);
    for (int i = 0; i <= len; i++) a[i] = me * 100 + i;
    { auto x = me == root ? a : b; MPI_Ibcast(x.data(), len + 1, MPI_INT, root, c, &q); MPI_Wait(&q, &st); for (int i = 0; i <= len; i++) WANT(x[i] == root * 100 + i); }
    { int s = me + 1, t = -1; MPI_Ireduce(&s, &t, 1, MPI_INT, MPI_SUM, root, c, &q); MPI_Wait(&q, &st); WANT(me == root ? t == n * (n + 1) / 2 : t == -1); }
    { std::vector<int> g(n * (len + 1), -1); MPI_Igather(a.data(), len + 1, MPI_INT, g.data(), len + 1, MPI_INT, root, c, &q); MPI_Wait(&q, &st); if (me == root) for (int k = 0; k < n; k++) for (int i = 0; i <= len; i++) WANT(g[k * (len + 1) + i] == k * 100 + i);
      MPI_Iscatter(g.data(), len + 1, MPI_INT, b.data(), len + 1, MPI_INT, root, c, &q); MPI_Wait(&q, &st); for (int i = 0; i <= len; i++) WANT(b[i] == a[i]); }
    { std::vector<int> k(n), o(n); int at = 0; for (int i = 0; i < n; i++) { k[i] = 1 + i % (len + 1); o[i] = at; at += k[i] + 1; } std::vector<int> g(at, -1); MPI_Igatherv(a.data(), k[me], MPI_INT, g.data(), k.data(), o.data(), MPI_INT, root, c, &q); MPI_Wait(&q, &st); if (me == root) for (int i = 0; i < n; i++) { for (int j = 0; j < k[i]; j++) WANT(g[o[i] + j] == i * 100 + j); WANT(g[o[i] + k[i]] == -1); }
      std::vector<int> s(len + 1, -1); MPI_Iscatterv(g.data(), k.data(), o.data(), MPI_INT, s.data(), k[me], MPI_INT, root, c, &q); MPI_Wait(&q, &st); for (int j = 0; j < k[me]; j++) WANT(s[j] == me * 100 + j); }
    { char buf[4096]; int pos = 0, sz; double d = me + 0.5; MPI_Pack_size(len + 1, MPI_INT, c, &sz); WANT(sz >= 4 * (len + 1)); MPI_Pack(a.data(), len + 1, MPI_INT, buf, sizeof buf, &pos, c); MPI_Pack(&d, 1, MPI_DOUBLE, buf, sizeof buf, &pos, c); int room = pos;
      if (me == root) { for (int k = 0; k < n; k++) if (k != root) MPI_Bsend(buf, pos, MPI_PACKED, k, 5, c); }
      else { MPI_Message m; int f = 0; if (me % 2) MPI_Mprobe(root, 5, c, &m, &st); else while (!f) MPI_Improbe(MPI_ANY_SOURCE, 5, c, &f, &m, &st); int got; MPI_Get_count(&st, MPI_PACKED, &got); WANT(got == room); char in[4096]; MPI_Mrecv(in, got, MPI_PACKED, &m, &st); WANT(m == MPI_MESSAGE_NULL && st.MPI_SOURCE == root && st.MPI_TAG == 5); pos = 0; std::vector<int> y(len + 1); double z; MPI_Unpack(in, got, &pos, y.data(), len + 1, MPI_INT, c); MPI_Unpack(in, got, &pos, &z, 1, MPI_DOUBLE, c); for (int i = 0; i <= len; i++) WANT(y[i] == root * 100 + i); WANT(z == root + 0.5); } }
    { MPI_Datatype t; MPI_Type_create_hvector(3, 2, 12, MPI_INT, &t); MPI_Type_commit(&t); int x[9], y[9]; for (int i = 0; i < 9; i++) { x[i] = me * 10 + i; y[i] = -1; } int to = (me + 1) % n, from = (me + n - 1) % n; MPI_Request s; MPI_Ssend_init(x, 1, t, to, 9, c, &s); MPI_Start(&s); MPI_Recv(y, 1, t, from, 9, c, &st); int f = 0; while (!f) MPI_Request_get_status(s, &f, &st); MPI_Wait(&s, &st); MPI_Request_free(&s); for (int i = 0; i < 9; i++) WANT(y[i] == (i % 3 == 2 ? -1 : from * 10 + i)); MPI_Type_free(&t); }
    note("self checks");
  });
}
