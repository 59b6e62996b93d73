// I03: the Runge-Kutta-Fehlberg integrator.
#include "mc.hpp"
#include "var/ode_solvers/rkf45.hpp"
#include <cmath>
#include <new>
namespace {
FILE *calf() { static FILE *f = getenv("I01_CAL") ? fopen(getenv("I01_CAL"), "a") : nullptr; if (f) setvbuf(f, nullptr, _IONBF, 0); return f; }
struct Par { int n, fast, kind; long nev; };
double freq(const Par &p, int i) { return i == p.fast ? 5e0 : 0.15 * (1 + i); }
double amp(const Par &p, int i) { return p.kind == 1 ? (i == p.fast ? 1e-3 : 1e3) : p.kind == 2 ? (i == p.fast ? 1e3 : 1e-3) : 1; }
double ex(const Par &p, int i, double t) { return amp(p, i) * (2 + std::sin(freq(p, i) * t)); }
const double LAM = 0.1;
void f(double t, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> d, void *q) {
  Par &p = *(Par *)q; ++p.nev;
  for (int i = 0; i < p.n; i++) d(i) = amp(p, i) * freq(p, i) * std::cos(freq(p, i) * t) - LAM * (y(i) - ex(p, i, t));
}
struct Box { // in memory whose former contents are known
  alignas(64) unsigned char mem[sizeof(dso::RKF45)]; dso::RKF45 *p;
  Box(Par &q, double r, double a, unsigned char dirt) { std::memset(mem, dirt, sizeof mem); p = new (mem) dso::RKF45(f, q.n, r, a, &q); }
  ~Box() { p->~RKF45(); }
};
enum { SHORT, MID, LONG, TINY, BACK, SAME, NACT };
const char *NAME[] = {"short", "mid", "long", "tiny", "back", "same"};
// one call; the returned flag is checked; e is the bound on the error so far
void act(mc::Ctx &c, Box &b, const Par &p, int a, double &t, Eigen::VectorXd &y, double tol, double *e, bool &first, mc::Hash &h) {
  static const double D[] = {0.07, 0.9, 4.5, 1e-10, -0.6, 0};
  double t0 = t, tout = t + D[a]; Eigen::VectorXd y0 = y; int n = 0;
  while (true) {
    long ev = p.nev;
    b.p->solve(t, tout, y);
    int fl = b.p->flag();
    c.check(p.nev - ev < 4000, "%ld evaluations in one call", p.nev - ev);
    if (a == SAME) {
      c.check(t == t0 && (y.array() == y0.array()).all(), "coincident epochs: epoch or state moved");
      // at the start this is an initialisation, later it is refused; both are documented
      c.check(first ? fl == 2 || fl == 8 : fl == 8, "coincident epochs: flag %d", fl);
      h.i(fl); first = false; return;
    }
    if (fl == 2) break;
    c.check(fl == 3 || fl == 4 || fl == 7, "%s from %.9g to %.9g: flag %d", NAME[a], t0, tout, fl);
    if (fl == 3) c.check(t == t0 && (y.array() == y0.array()).all(), "tolerance refused but the state moved");
    c.check((t - t0) * (tout - t0) >= 0 && std::fabs(t - t0) <= std::fabs(tout - t0), "left at %.17g between %.17g and %.17g", t, t0, tout);
    c.check(++n < 50, "no progress");
  }
  first = false;
  c.check(t == tout, "asked for %.17g, left at %.17g", tout, t);
  double len = std::fabs(tout - t0);
  double A = std::exp(LAM * (t0 - tout));
  for (int i = 0; i < p.n; i++) {
    double d = y(i) - ex(p, i, t);
    e[i] = A * e[i] + 5e0 * (tol * (1 + 3 * len) + 1e-14) * amp(p, i) * std::max(A, 1.0);
    c.check(std::isfinite(d) && std::fabs(d) <= e[i], "%s to t=%.9g, component %d of %d (fast one: %d): %.15g instead of %.15g (error %.2e, limit %.2e, tolerance %.0e)", NAME[a], t, i, p.n, p.fast, y(i), ex(p, i, t), d, e[i], tol);
    if (calf()) { static double mx; double r = std::fabs(d) / e[i]; if (r > mx) { mx = r; fprintf(calf(), "CAL rkf tol %.0e %.3f\n", tol, r); } }
    h.q(y(i));
  }
  c.step();
}
MC_SCENARIO("drive", 0, 0) {
  Par p; p.n = 1 + c.choose(8, "dimension"); p.fast = c.choose(p.n, "fast component"); p.kind = c.choose(3, "magnitudes"); p.nev = 0;
  static const double TOLS[] = {1e-3, 1e-5, 1e-7, 1e-9, 1e-10};
  double tol = TOLS[c.choose(c.thorough() ? 5 : 4, "tolerance")];
  int len = c.thorough() ? 4 : 3;
  Par q = p;
  Box a(p, tol, 1e-3 * tol * std::min(amp(p, 0), amp(p, p.fast)), 0), b(q, tol, 1e-3 * tol * std::min(amp(p, 0), amp(p, p.fast)), 0xFF);
  double t = 0, s = 0, ea[8] = {0}, eb[8] = {0};
  Eigen::VectorXd y(p.n), z(p.n); for (int i = 0; i < p.n; i++) z(i) = y(i) = ex(p, i, 0);
  mc::Hash h; h.i(p.n).i(p.fast).d(tol);
  bool fa = true, fb = true;
  for (int i = 0; i < len; i++) {
    int x = c.choose(i < 2 ? NACT : 3, "action");
    act(c, a, p, x, t, y, tol, ea, fa, h);
    mc::dirty_stack(0x11);
    act(c, b, q, x, s, z, tol, eb, fb, h);
    c.check(t == s && (y.array() == z.array()).all() && a.p->flag() == b.p->flag(), "two identical runs differ");
    mc::dirty_stack(0xEE);
    c.state(h.h);
  }
  c.outcome(h.h);
}
// tolerances the method refuses or cannot meet; work limits
MC_SCENARIO("limits", 0, 0) {
  Par p; p.n = 1 + c.choose(3, "dimension"); p.fast = 0; p.kind = 0; p.nev = 0;
  static const double TOLS[] = {0e0, 1e-14, 1e-12, 1e-8, -1e-8}; static const double ABS[] = {0e0, 1e-12, -1e-9};
  double rel = c.pick(TOLS, "relative"), ab = c.pick(ABS, "absolute");
  int len = c.choose(3, "length"); bool back = c.flip("backward");
  Box a(p, rel, ab, 0xFF);
  double t = 0, tout = (len == 0 ? 1e0 : len == 1 ? 30e0 : 300e0) * (back ? -1 : 1);
  if (back && len == 2) tout = -60;
  Eigen::VectorXd y(p.n); for (int i = 0; i < p.n; i++) y(i) = ex(p, i, 0);
  Eigen::VectorXd y0 = y; mc::Hash h; int n3 = 0, n4 = 0, fl;
  while (true) {
    double tb = t;
    a.p->solve(t, tout, y); fl = a.p->flag(); c.step(); h.i(fl).d(t);
    if (rel < 0 || ab < 0) { c.check(fl == 8 && t == 0 && (y.array() == y0.array()).all(), "negative tolerance: flag %d, epoch %g", fl, t); if (n3++ == 2) break; continue; }
    if (fl == 2 || fl == 6) break;
    if (fl == 3) { c.check(rel < 2e-12 && n3 == 0 && t == 0, "tolerance %g refused (time %d)", rel, n3 + 1); n3++; continue; }
    c.check(fl == 4, "flag %d", fl);
    c.check(std::fabs(t) > std::fabs(tb) && std::fabs(t) < std::fabs(tout), "work limit at %g after %g", t, tb);
    c.check(++n4 < 300, "no end");
    double lim = 5 * (std::max(rel, 1e-12) + ab + 1e-14) * (3 + 3 * std::fabs(t)) * std::max(1.0, std::exp(LAM * -t));
    for (int i = 0; i < p.n; i++) c.check(std::fabs(y(i) - ex(p, i, t)) <= lim, "at the work limit (t=%g) component %d is off by %.2e (limit %.2e)", t, i, y(i) - ex(p, i, t), lim);
  }
  if (rel >= 0 && ab >= 0) {
    if (fl == 2) c.check(t == tout, "left at %g", t);
    double lim = 5 * (std::max(rel, 1e-12) + ab + 1e-14) * (3 + 3 * std::fabs(t)) * std::max(1.0, std::exp(LAM * -t));
    for (int i = 0; i < p.n; i++) c.check(std::fabs(y(i) - ex(p, i, t)) <= lim, "at t=%g component %d is off by %.2e (limit %.2e)", t, i, y(i) - ex(p, i, t), lim);
  }
  c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("I03", "model_checking",
  "every dimension, position of the fast component, magnitude pattern, tolerance and sequence of targets on the real integrator, each run twice in differently dirty memory; every combination of refused, unreachable and loose tolerances with lengths beyond the work limit",
  "dimensions 1..8, tolerances 1e-3..1e-9 (quick) / 1e-10, sequences of 3 / 4 targets over 6 kinds (3 beyond the second)",
  "an error within 5 x tolerance x (1 + 3 x length) per call, amplified as the problem amplifies it, counts as meeting the tolerance")
