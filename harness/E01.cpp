// E01: Earth-orientation tables are values.
#include "mc.hpp"
#include "datetime/dtcalendar.hpp"
#include "eop.hpp"
#include "iers2010/iers2010.hpp"
#include <new>
#include <utility>
#include <vector>
namespace {
using T = dso::EopLookUpTable;
struct Row { bool known{false}; double v[8]{}; };
struct Mod { bool live{false}, moved{false}; std::vector<Row> r; };
alignas(T) unsigned char st[3][sizeof(T)];
T &t(int i) { return *reinterpret_cast<T *>(st[i]); }
double &cell(T &x, int k, int i) {
  switch (k) { case 0: return *x.mjd(i); case 1: return *x.xp(i); case 2: return *x.yp(i); case 3: return *x.dut(i); case 4: return *x.dx(i); case 5: return *x.dy(i); case 6: return *x.lod(i); default: return *x.omega(i); }
}
const double &cell(const T &x, int k, int i) {
  switch (k) { case 0: return *x.mjd(i); case 1: return *x.xp(i); case 2: return *x.yp(i); case 3: return *x.dut(i); case 4: return *x.dx(i); case 5: return *x.dy(i); case 6: return *x.lod(i); default: return *x.omega(i); }
}
const char *COL[] = {"mjd", "xp", "yp", "dut", "dx", "dy", "lod", "omega"};
void verify(mc::Ctx &c, Mod *m, int nt, const char *w) {
  for (int i = 0; i < nt; i++) if (m[i].live && !m[i].moved) {
    const T &x = t(i);
    c.check(x.size() == (int)m[i].r.size(), "after %s: table %d has %d rows instead of %zu", w, i, x.size(), m[i].r.size());
    for (int k = 0; k < 8; k++) for (int j = 0; j < x.size(); j++) if (m[i].r[j].known) {
      c.check(cell(x, k, j) == m[i].r[j].v[k], "after %s: table %d row %d column %s reads %.17g instead of %.17g", w, i, j, COL[k], cell(x, k, j), m[i].r[j].v[k]);
      c.check(&cell(t(i), k, j) == &cell(x, k, j), "const and mutable access to %s differ", COL[k]);
    }
  }
}
void history(mc::Ctx &c, int nt, int depth, bool big) {
  size_t before = mc::heap_live(); mc::Hash h; double u = 1;
  {
    Mod m[3]; std::memset(st, 0xEE, sizeof st);
    auto rows = [&](const char *l) { static const int N[] = {0, 1, 2, 4, 3, 11}; int n = N[c.choose(big ? 6 : 4, l)]; h.i(n); return n; };
    auto write = [&](int i, int j) { Row &r = m[i].r[j]; r.known = true; for (int k = 0; k < 8; k++) { r.v[k] = k == 0 ? 59000 + j + u / 1024 : (u += 1.25); cell(t(i), k, j) = r.v[k]; } };
    auto fill = [&](int i) { for (size_t j = 0; j < m[i].r.size(); j++) write(i, j); };
    for (int d = 0; d < depth; d++) {
      int i = c.choose(nt, "which"), op = c.choose(10, "operation"), j = nt == 2 ? 1 - i : (i + 1 + (op >= 1 && op <= 4 ? c.choose(2, "from") : 0)) % 3;
      const char *w = ""; h.i(i).i(op).i(j);
      switch (op) {
      case 0: { w = "construction"; if (m[i].live) t(i).~T(); bool def = big && c.flip("default"); int n = def ? 10 : rows("rows"); if (def) new (st[i]) T; else new (st[i]) T(n); m[i] = Mod{}; m[i].live = true; m[i].r.resize(n); c.check(t(i).size() == n, "size"); fill(i); break; }
      case 1: w = "copy construction"; if (!m[j].live || m[j].moved) c.skip(); if (m[i].live) t(i).~T(); new (st[i]) T(static_cast<const T &>(t(j))); m[i] = m[j]; break;
      case 2: w = "move construction"; if (!m[j].live || m[j].moved) c.skip(); if (m[i].live) t(i).~T(); new (st[i]) T(std::move(t(j))); m[i] = m[j]; m[j].moved = true; m[j].r.clear(); break;
      case 3: w = "copy assignment"; if (!m[i].live || !m[j].live || m[j].moved) c.skip(); { T &r = (t(i) = static_cast<const T &>(t(j))); c.check(&r == &t(i), "result"); } m[i] = m[j]; break;
      case 4: w = "move assignment"; if (!m[i].live || !m[j].live || m[j].moved) c.skip(); t(i) = std::move(t(j)); m[i] = m[j]; m[j].moved = true; m[j].r.clear(); break;
      case 5: w = "self assignment"; if (!m[i].live || m[i].moved) c.skip(); { T &q = t(i); if (c.flip("move")) t(i) = std::move(q); else t(i) = q; } break;
      case 6: { w = "resize"; if (!m[i].live) c.skip(); int n = rows("rows"); bool grow = n > (int)m[i].r.size() || m[i].moved; t(i).resize(n); m[i].moved = false;
        if (grow) { m[i].r.assign(n, Row{}); fill(i); } else m[i].r.resize(n); // what a growing table holds is unspecified until written
        break; }
      case 7: w = "writing a row"; if (!m[i].live || m[i].moved || m[i].r.empty()) c.skip(); write(i, c.choose((int)m[i].r.size() > 2 ? 2 : (int)m[i].r.size(), "row") * ((int)m[i].r.size() > 2 ? (int)m[i].r.size() - 1 : 1)); break;
      case 8: w = "regularize"; if (!m[i].live || m[i].moved) c.skip(); t(i).regularize();
        for (auto &r : m[i].r) { double a, b, o; double day; double f = std::modf(r.v[0], &day); iers2010::rg_zont2((day + dso::mjd0_jd - dso::j2000_jd) / 36525e0 + f / 36525e0, a, b, o); r.v[3] -= a; r.v[6] -= b; r.v[7] -= o; }
        for (size_t q = 0; q < m[i].r.size(); q++) for (int k : {3, 6, 7}) { double g = cell(t(i), k, q); c.check(mc::close(g, m[i].r[q].v[k], 0, 1e-12), "regularize: row %zu column %s is %.15g instead of %.15g", q, COL[k], g, m[i].r[q].v[k]); m[i].r[q].v[k] = g; }
        break;
      case 9: w = "destruction"; if (!m[i].live) c.skip(); t(i).~T(); std::memset(st[i], 0xEE, sizeof st[i]); m[i] = Mod{}; break;
      }
      c.step(); verify(c, m, nt, w); c.state(h.h);
    }
    for (int i = 0; i < nt; i++) if (m[i].live) t(i).~T();
  }
  c.check(mc::heap_live() == before, "leak of %ld bytes", (long)(mc::heap_live() - before));
  c.outcome(h.h);
}
MC_SCENARIO("two-tables", 0, 0) { history(c, 2, c.thorough() ? 5 : 4, false); }
MC_SCENARIO("two-tables-sizes", 0, 0) { history(c, 2, c.thorough() ? 4 : 3, true); }
MC_SCENARIO("three-tables", 0, 0) { history(c, 3, c.thorough() ? 5 : 4, false); }
} // namespace
MC_PROPERTY("E01", "model_checking",
  "every sequence of constructions, copies, moves, assignments (self included), resizes, row writes, regularisations and destructions over two or three real tables; after every operation every cell of every column of every table is compared, at the end the heap balance",
  "sequences of length 4 (quick) / 5, sizes 0, 1, 2, 4; with sizes 3, 11 and the default 10 added, length 3 / 4",
  "what a table holds after growing, and the value of a moved-from table, are unspecified until written",
  "the zonal-tide model itself (iers2010::rg_zont2) is not part of this repository; a stand-in with known values is used")
