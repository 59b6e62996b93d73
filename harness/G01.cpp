// G01: value semantics of coefficient sets over every operation history.
#include "mc.hpp"
#include "harmonic_coeffs.hpp"
#include <new>
#include <utility>
using dso::HarmonicCoeffs;
#ifdef VAR_COPY
#define SFX "-var"
static HarmonicCoeffs *mk(void *p, int n, double, double) { return new (p) HarmonicCoeffs(n); }
static const int NRESIZE = 0;
static void rsz(HarmonicCoeffs &, int) {}
static void consts(HarmonicCoeffs &, double, double, bool) {}
static bool consts_ok(const HarmonicCoeffs &, double, double, bool) { return true; }
#else
#define SFX ""
static HarmonicCoeffs *mk(void *p, int n, double gm, double re) { return gm ? new (p) HarmonicCoeffs(n, gm, re) : new (p) HarmonicCoeffs(n); }
static const int NRESIZE = 5;
static void rsz(HarmonicCoeffs &h, int n) { h.resize(n); }
static void consts(HarmonicCoeffs &h, double gm, double re, bool nm) { h.GM() = gm; h.Re() = re; h.normalized() = nm; }
static bool consts_ok(const HarmonicCoeffs &h, double gm, double re, bool nm) { return h.GM() == gm && h.Re() == re && h.normalized() == nm; }
#endif
namespace {
constexpr int MAXN = 6;
struct Model { bool live{false}; int deg{0}; double C[MAXN][MAXN], S[MAXN][MAXN]; double gm{0}, re{0}; bool norm{true}; bool ck{true}; };
alignas(HarmonicCoeffs) unsigned char store[3][sizeof(HarmonicCoeffs)];
HarmonicCoeffs *H(int i) { return reinterpret_cast<HarmonicCoeffs *>(store[i]); }
double uniq;
void fill(HarmonicCoeffs &h, Model &m) {
  // interleave C and S writes so that an overlap between any two cells shows
  for (int n = 0; n <= m.deg; n++)
    for (int k = 0; k <= n; k++) {
      h.C(n, k) = m.C[n][k] = ++uniq;
      if (k) h.S(n, k) = m.S[n][k] = ++uniq;
    }
}
void verify(mc::Ctx &c, int i, const Model &m, const char *op) {
  if (!m.live) return;
  const HarmonicCoeffs &h = *H(i);
  c.check(h.degree() == m.deg, "slot %d after %s: degree %d, expected %d", i, op, h.degree(), m.deg);
  c.check(!m.ck || consts_ok(h, m.gm, m.re, m.norm), "slot %d after %s: constants differ", i, op);
  for (int n = 0; n <= m.deg; n++)
    for (int k = 0; k <= n; k++) {
      c.check(h.C(n, k) == m.C[n][k], "slot %d after %s: C(%d,%d)=%g, last written %g", i, op, n, k, h.C(n, k), m.C[n][k]);
      c.check(h.C_row(n)[k] == m.C[n][k], "slot %d after %s: C row %d differs", i, op, n);
      if (k) {
        c.check(h.S(n, k) == m.S[n][k], "slot %d after %s: S(%d,%d)=%g, last written %g", i, op, n, k, h.S(n, k), m.S[n][k]);
        c.check(h.S_row(n)[k - 1] == m.S[n][k], "slot %d after %s: S row %d differs", i, op, n);
      }
    }
#ifndef VAR_COPY
  if (m.deg >= 2) c.check(h.J2() == -m.C[2][0], "slot %d: J2 is %g, -C20 is %g", i, h.J2(), -m.C[2][0]);
#endif
}
void history(mc::Ctx &c, int depth, int nslots) {
  Model m[3];
  uniq = 0;
  size_t before = mc::heap_live();
  struct Guard { int n; ~Guard() { for (int i = 0; i < n; i++) H(i)->~HarmonicCoeffs(); } };
  for (int i = 0; i < nslots; i++) new (store[i]) HarmonicCoeffs();
  bool failed = true;
  try {
    for (int d = 0; d < depth; d++) {
      int a = nslots > 1 ? c.choose(nslots, "slot") : 0;
      int nctor = 4;
      // ops: [0,NRESIZE) resize; ctor; move-assign from b; move-construct from b; rewrite
      int op = c.choose(NRESIZE + nctor + 2 * nslots + 1, "op");
      char name[64];
      HarmonicCoeffs &h = *H(a);
      if (op < NRESIZE) {
        std::snprintf(name, sizeof name, "h%d.resize(%d)", a, op);
        rsz(h, op);
        bool same = m[a].live && m[a].deg == op;
        m[a].live = true; m[a].deg = op;
        if (!same) fill(h, m[a]);
      } else if ((op -= NRESIZE) < nctor) {
        static const int degs[4] = {0, 1, 2, 4};
        int n = degs[op];
        std::snprintf(name, sizeof name, "h%d = new set(%d)", a, n);
        h.~HarmonicCoeffs();
        double gm = n == 2 ? 3986.5 + d : 0, re = n == 2 ? 6378.25 + d : 0;
        mk(store[a], n, gm, re);
        m[a] = Model(); m[a].live = true; m[a].deg = n; m[a].gm = gm; m[a].re = re;
        fill(h, m[a]);
      } else if ((op -= nctor) < nslots) {
        int b = op;
        std::snprintf(name, sizeof name, "h%d = move(h%d)", a, b);
        HarmonicCoeffs &src = *H(b);
        h = std::move(src);
        if (a != b) { m[a] = m[b]; m[b] = Model(); m[b].ck = false; }
      } else if ((op -= nslots) < nslots) {
        int b = op;
        if (a == b) c.skip();
        std::snprintf(name, sizeof name, "h%d constructed from move(h%d)", a, b);
        h.~HarmonicCoeffs();
        new (store[a]) HarmonicCoeffs(std::move(*H(b)));
        m[a] = m[b]; m[b] = Model(); m[b].ck = false;
      } else {
        std::snprintf(name, sizeof name, "h%d rewritten", a);
        if (!m[a].live) c.skip();
        m[a].gm = 100 + d; m[a].re = 200 + d; m[a].norm = !m[a].norm; m[a].ck = true;
#ifdef VAR_COPY
        m[a].gm = m[a].re = 0;
#endif
        consts(h, m[a].gm, m[a].re, m[a].norm);
        fill(h, m[a]);
      }
      c.note("%s", name);
      c.step();
      mc::Hash hs;
      for (int i = 0; i < nslots; i++) {
        verify(c, i, m[i], name);
        hs.i(m[i].live).i(m[i].deg).d(m[i].gm).i(m[i].norm);
        if (m[i].live) hs.d(m[i].C[0][0]);
      }
      c.state(hs.h);
    }
    failed = false;
  } catch (mc::Skip &) {
    for (int i = 0; i < nslots; i++) H(i)->~HarmonicCoeffs();
    throw;
  }
  (void)failed;
  for (int i = 0; i < nslots; i++) H(i)->~HarmonicCoeffs();
  size_t after = mc::heap_live();
  c.check(after == before, "%ld bytes not released after the history", (long)(after - before));
}
MC_SCENARIO("two-sets" SFX, 0, 0) { history(c, c.thorough() ? 5 : 4, 2); }
MC_SCENARIO("one-set-deep" SFX, 0, 0) { history(c, c.thorough() ? 6 : 4, 1); }
MC_SCENARIO("three-sets" SFX, 0, 0) { history(c, c.thorough() ? 4 : 3, 3); }
// cells are pairwise distinct storage for every degree
MC_SCENARIO("layout" SFX, 0, 0) {
  int n = c.choose(c.thorough() ? 40 : 16, "degree");
  c.note("degree %d", n);
  Model *m = nullptr; (void)m;
  HarmonicCoeffs *h = mk(store[0], n, 0, 0);
  double v = 0;
  for (int i = 0; i <= n; i++) for (int k = 0; k <= i; k++) { h->C(i, k) = ++v; if (k) h->S(i, k) = ++v; c.step(2); }
  v = 0;
  for (int i = 0; i <= n; i++) for (int k = 0; k <= i; k++) {
    c.check(h->C(i, k) == ++v, "degree %d: C(%d,%d) overwritten", n, i, k);
    if (k) c.check(h->S(i, k) == ++v, "degree %d: S(%d,%d) overwritten", n, i, k);
  }
  c.state(mc::Hash().i(n).h);
  h->~HarmonicCoeffs();
}
} // namespace
#ifndef VAR_COPY
MC_PROPERTY("G01", "model_checking",
  "every sequence of {resize, construct, move-assign (self included), move-construct, rewrite} over 1..3 coefficient sets, against per-set maps of last-written values; a state is the tuple of model contents",
  "depth 4 (quick) / 5 (thorough) over two sets, 3 / 4 over three, 4/6 over one; degrees 0..4; layout degrees 0..15 / 0..39",
  "values after a resize to a different degree are unspecified and are rewritten before being read",
  "the constants of a moved-from set are unspecified until given again", "AddressSanitizer's allocator count is the leak oracle")
#endif
