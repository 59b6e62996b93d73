// G05: acceleration and partials of a spherical harmonic field.
#include "mc.hpp"
#include "egravity.hpp"
#include "solidharm.hpp"
#include <eigen3/Eigen/Dense>
#include <memory>
namespace {
using namespace sh;
using T = dso::Mat2D<dso::MatrixStorageType::Trapezoid>;
#ifdef VAR_COPY
#define SFX "-var"
#elif defined(NDEBUG)
#define SFX "-release"
#else
#define SFX ""
#endif
const int NMAX = 12; const double Re = 6378136.3, GM = 3.986004415e14;
const double DIR[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, -1}, {-1, 0, 0}, {0, -1, 0}, {1, 1, 1}, {-1, 2, -0.5}, {0.3, -0.4, 0.1}, {-0.6, -0.2, -0.9}, {1e-9, 0, 1}, {0, -1e-9, -1}, {1, 1e-9, 1e-9}, {2, 0, 1}, {0, 0.5, -1}, {1e-4, 1e-4, 1}};
const double RAD[] = {1.05, 1.3, 6.6};
const int ND = 16, NR = 3;
struct Tab { J V[NMAX + 3][NMAX + 3], W[NMAX + 3][NMAX + 3]; bool have[NMAX + 3]{}; };
void pos(int k, R *p) { const double *d = DIR[k % ND]; R n = std::sqrt((R)d[0] * d[0] + (R)d[1] * d[1] + (R)d[2] * d[2]); for (int i = 0; i < 3; i++) p[i] = (double)((R)Re * RAD[k / ND] * d[i] / n); }
const Tab &tab(int k, int n) { static std::map<int, std::unique_ptr<Tab>> M; auto &t = M[k]; if (!t) t.reset(new Tab); R p[3]; pos(k, p); for (int i = 0; i <= n; i++) if (!t->have[i]) { for (int m = 0; m <= i; m++) term(i, m, Re, p, t->V[i][m], t->W[i][m]); t->have[i] = true; } return *t; }
// size of a term's derivatives over all directions at that distance
R amp(int k, int n, int m, int ord) { static std::map<std::tuple<int, int, int, int>, R> M; R &a = M[{k / ND, n, m, ord}]; if (a == 0) for (int d = 0; d < ND; d++) { const Tab &t = tab(k / ND * ND + d, n); for (int i = 0; i < 3; i++) { if (ord == 1) a = std::max(a, std::max(std::fabs(t.V[n][m].g[i]), std::fabs(t.W[n][m].g[i]))); else for (int j = 0; j < 3; j++) a = std::max(a, std::max(std::fabs(t.V[n][m].h[i][j]), std::fabs(t.W[n][m].h[i][j]))); } } return a; }
void poison(T &m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j <= i && j < m.cols(); j++) m(i, j) = NAN; }
double cval(int n, int m) { return (n == 0 ? 1 : 1e-3 / (n * n)) * ((n + 2 * m) % 3 ? 1 : -0.7) / std::sqrt(amp(0, n, m, 1) > 1 ? (double)amp(0, n, m, 1) : 1); }
double sval(int n, int m) { return 0.9 * cval(n, m) * (m % 2 ? -1 : 1.1); }
struct Arrays { std::unique_ptr<T> V, W; };
#ifdef VAR_COPY
const int MODES = 1;
#else
const int MODES = 6;
#endif
// one evaluation through one of the call forms; partials only where the form has them
bool eval(mc::Ctx &c, int mode, const Eigen::Matrix<double, 3, 1> &r, int n, int m, Arrays &A, int extra, const dso::HarmonicCoeffs &hc, Eigen::Matrix<double, 3, 1> &a, Eigen::Matrix<double, 3, 3> &P) {
  bool part = mode & 1; int up = part ? 3 : 2;
  if (!A.V || A.V->rows() < n + up || A.V->cols() < m + up) { A.V.reset(new T(n + up + extra, m + up + (extra ? 1 : 0))); A.W.reset(new T(n + up + extra, m + up + (extra ? 1 : 0))); poison(*A.V); poison(*A.W); }
  P.setConstant(part ? NAN : 0); a.setConstant(NAN); mc::dirty_stack(0xFF);
#ifdef VAR_COPY
  int e = dso::lagrange_polynomials(r(0), r(1), r(2), Re, n + 1, m + 1, *A.V, *A.W); double acc[3] = {NAN, NAN, NAN}; e += dso::grav_potential_accel(n, m, Re, GM, *A.V, *A.W, hc, acc); c.check(e == 0, "status %d", e); a << acc[0], acc[1], acc[2];
#else
  if (mode < 4) { int e = dso::lagrange_polynomials(r, Re, n + up - 1, m + up - 1, *A.V, *A.W); c.check(e == 0, "polynomials: status %d", e); }
  switch (mode) {
  case 0: a = dso::grav_potential_accel(n, m, Re, GM, *A.V, *A.W, hc); break;
  case 1: a = dso::grav_potential_accel(n, m, Re, GM, *A.V, *A.W, hc, P); break;
  case 2: a = dso::grav_potential_accel(n, m, *A.V, *A.W, hc); break;
  case 3: a = dso::grav_potential_accel(n, m, *A.V, *A.W, hc, P); break;
  case 4: a = dso::grav_potential_accel(r, n, m, *A.V, *A.W, hc); break;
  case 5: a = dso::grav_potential_accel(r, n, m, *A.V, *A.W, hc, P); break;
  }
#endif
  return part;
}
MC_SCENARIO("field" SFX, 0, 0) {
  int N = c.thorough() ? 9 : 5, n = c.choose(N + 1, "degree"), m = c.choose(n + 1, "order");
  // every single coefficient inside the cut-off, or all of them
  int cnt = (n + 1) * (n + 2) / 2, k = c.choose(2 * cnt + 1, "coefficient") - 1; bool sine = k >= cnt; int kn = 0, km = 0;
  if (k >= 0) { int q = k % cnt; while (q > kn) { q -= kn + 1; kn++; } km = q; if (sine && km == 0) c.skip(); }
  int mode = c.choose(MODES, "call"), hist = c.choose(4, "work arrays"), rad = c.choose(NR, "distance");
  dso::HarmonicCoeffs hc(n + 2);
#ifndef VAR_COPY
  hc.GM() = GM; hc.Re() = Re; hc.normalized() = false;
#endif
  // what lies beyond the cut-off must not matter
  for (int i = 0; i <= n + 2; i++) for (int j = 0; j <= i; j++) { bool in = i <= n && j <= m; hc.C(i, j) = !in ? 1e3 : k < 0 ? cval(i, j) : (i == kn && j == km && !sine) ? 1 : 0; if (j) hc.S(i, j) = !in ? -1e3 : k < 0 ? sval(i, j) : (i == kn && j == km && sine) ? 1 : 0; }
  Arrays A; Eigen::Matrix<double, 3, 1> a; Eigen::Matrix<double, 3, 3> P; mc::Hash h; int ev = 0;
  if (hist == 2) { Eigen::Matrix<double, 3, 1> r(7e6, -1e6, 3e6); eval(c, mode, r, n, m, A, 0, hc, a, P); }          // used before at another place
  if (hist == 3) { Eigen::Matrix<double, 3, 1> r(-7e6, 2e6, 1e6); eval(c, mode, r, n + 2, std::min(m + 2, n + 2), A, 0, hc, a, P); } // sized and used for a larger field
  for (int d = 0; d < ND; d++) {
    int pk = rad * ND + d; R p[3]; pos(pk, p); const Tab &t = tab(pk, n); Eigen::Matrix<double, 3, 1> r((double)p[0], (double)p[1], (double)p[2]);
    if (hist == 0) { A.V.reset(); A.W.reset(); }
    bool part = eval(c, mode, r, n, m, A, hist == 1 ? 2 : 0, hc, a, P); ev++; c.step();
    R g[3] = {0, 0, 0}, H[3][3] = {{0}}, sg = 1e-30L, sH = 1e-30L;
    for (int i = 0; i <= n; i++) for (int j = 0; j <= std::min(i, m); j++) { double C = hc.C(i, j), S = j ? hc.S(i, j) : 0; if (C == 0 && S == 0) continue; sg += (std::fabs(C) + std::fabs(S)) * amp(pk, i, j, 1); sH += (std::fabs(C) + std::fabs(S)) * amp(pk, i, j, 2);
      for (int x = 0; x < 3; x++) { g[x] += C * t.V[i][j].g[x] + S * t.W[i][j].g[x]; for (int y = 0; y < 3; y++) H[x][y] += C * t.V[i][j].h[x][y] + S * t.W[i][j].h[x][y]; } }
    R fg = (R)GM / Re / Re, fH = fg / Re; auto lab = [&] { static char b[200]; snprintf(b, sizeof b, "degree %d order %d, %s%c(%d,%d), call %d, work arrays %d, position (%.9Lg,%.9Lg,%.9Lg)", n, m, k < 0 ? "all coefficients " : "", sine ? 'S' : 'C', kn, km, mode, hist, p[0], p[1], p[2]); return b; };
    for (int x = 0; x < 3; x++) c.check(std::fabs(a(x) - g[x] * fg) <= 2e-14L * (n + 2) * sg * fg, "%s: acceleration[%d] is %.16g instead of %.16Lg", lab(), x, a(x), g[x] * fg);
    if (part) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) c.check(std::fabs(P(x, y) - H[x][y] * fH) <= 2e-14L * (n + 2) * sH * fH, "%s: partial (%d,%d) is %.16g instead of %.16Lg", lab(), x, y, P(x, y), H[x][y] * fH);
    h.q((double)g[0]).q((double)g[2]).q(part ? (double)H[0][1] : 0);
  }
  c.evals(ev); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("polynomials" SFX, 0, 0) {
  int N = c.thorough() ? NMAX : 8, l = c.choose(N + 1, "degree"), k = c.choose(N + 1, "order"), extra = c.choose(3, "larger arrays"), pk = c.choose(ND * NR, "position"); R p[3]; pos(pk, p); if (k > l + 1) c.skip();
  T V(l + 1 + extra, std::min(k, l) + 1 + (extra == 2)), W(l + 1 + extra, std::min(k, l) + 1 + (extra == 2)); poison(V); poison(W);
  int rc = dso::lagrange_polynomials((double)p[0], (double)p[1], (double)p[2], Re, l, k, V, W); c.step(); c.check((rc != 0) == (k > l), "degree %d order %d: status %d", l, k, rc); mc::Hash h; h.i(rc);
  if (!rc) { const Tab &t = tab(pk, l); for (int i = 0; i < V.rows(); i++) for (int j = 0; j <= i && j < V.cols(); j++) {
    if (i > l || j > k) { c.check(std::isnan(V(i, j)) && std::isnan(W(i, j)), "degree %d order %d: writes beyond, at (%d,%d)", l, k, i, j); continue; }
    R s = 0; for (int d = 0; d < ND; d++) { const Tab &u = tab(pk / ND * ND + d, l); s = std::max(s, std::max(std::fabs(u.V[i][j].v), std::fabs(u.W[i][j].v))); }
    c.check(std::fabs(V(i, j) - t.V[i][j].v) <= 2e-14L * (i + 1) * s && std::fabs(W(i, j) - t.W[i][j].v) <= 2e-14L * (i + 1) * s, "degree %d order %d at (%.9Lg,%.9Lg,%.9Lg): V(%d,%d)=%.16g W=%.16g instead of %.16Lg %.16Lg", l, k, p[0], p[1], p[2], i, j, V(i, j), W(i, j), t.V[i][j].v, t.W[i][j].v); h.q(V(i, j)); } }
  c.state(h.h); c.outcome(h.h);
}
} // namespace
#if !defined(VAR_COPY) && !defined(NDEBUG)
MC_PROPERTY("G05", "model_checking",
  "every (degree, order) cut-off x every single coefficient of the field and the field of all coefficients (with large coefficients beyond the cut-off) x every call form (given or stored constants, polynomials supplied or computed, with and without partials) x work arrays fresh and poisoned, larger than needed, used before elsewhere, used before for a larger field x directions (axes, poles, a hair off them, general) x distances; the basis functions for every (degree, order, array size); on src/ compiled with and without assertions and on var/icgem",
  "degree up to 5 (quick) / 9; basis functions up to 8 / 12; 16 directions x 3 distances",
  "the reference is the closed form of the solid harmonics differentiated in extended precision; tolerance is rounding relative to the largest value of each harmonic at that distance; work arrays as large as documented, or larger")
#endif
