// K02: Kepler's equation.
#include "mc.hpp"
#include "astrodynamics.hpp"
#include "twobody.hpp"
namespace {
using namespace tb; const double pi = 3.14159265358979323846, eps = 2.220446049250313e-16;
const double ECC[] = {0, 1e-12, 1e-3, 0.02, 0.1, 0.3, 0.5, 0.7, 0.79999999, 0.8, 0.85, 0.9, 0.95, 0.99, 0.999, 0.9999, 0.999999};
const double TOL[] = {-1, 1e-10, 1e-6, 1e-3};
void one(mc::Ctx &c, double e, double M, int ti, mc::Hash &h) {
  double tol = TOL[ti] < 0 ? 1e2 * eps : TOL[ti], m = std::fmod(M, 2 * pi); if (m < 0) m += 2 * pi;
  R root = kepler(e, m), E[2]; int st[2];
  for (int v = 0; v < 2; v++) {
    const char *nm = v ? "kepler_vallado" : "kepler"; st[v] = 77;
    double x = v ? (TOL[ti] < 0 ? dso::kepler_vallado(e, M, st[v]) : dso::kepler_vallado(e, M, st[v], tol)) : (TOL[ti] < 0 ? dso::kepler(e, M, st[v]) : dso::kepler(e, M, st[v], tol));
    E[v] = x; c.step(); h.i(st[v] != 0).q(st[v] ? 0 : std::fabs(x) < 1e-9 ? 0 : x);
    // a well-conditioned problem is solved; whoever reports success has solved it
    if (e <= 0.9999) c.check(st[v] == 0, "%s(e=%.10g, M=%.17g, tolerance %g): status %d", nm, e, M, tol, st[v]);
    if (st[v]) continue;
    // the residual after the last step is far below that of the step before, save for rounding
    R f = E[v] - e * std::sin(E[v]) - m, room = tol * (v ? 1 + e : 1) + 4 * eps * (1 + m) + eps * std::fabs(M);
    c.check(std::isfinite(x) && std::fabs(f) <= room, "%s(e=%.10g, M=%.17g, tolerance %g): E=%.17g leaves a residual of %.3Lg", nm, e, M, tol, x, f);
    c.check(std::fabs(E[v] - m) <= e + room / (1 - e) , "%s(e=%.10g, M=%.17g): E=%.17g is not in the revolution of M mod 2pi=%.17g", nm, e, M, x, m);
    // residual tol near the root: error of E is at most tol/(1-e), and never more than the cube-root law near e=1
    R de = std::min((R)room / (1 - (R)e), 2 * std::cbrt(6 * room));
    c.check(std::fabs(E[v] - root) <= de * 1.01L, "%s(e=%.10g, M=%.17g): E=%.17g instead of %.17Lg", nm, e, M, x, root);
  }
  if (!st[0] && !st[1]) c.check(std::fabs(E[0] - E[1]) <= 4 * (tol * 2 + 8 * eps * (1 + m) + eps * std::fabs(M)) / (1 - e), "solvers disagree at e=%.10g M=%.17g: %.17Lg and %.17Lg", e, M, E[0], E[1]);
}
MC_SCENARIO("lattice", 0, 0) {
  double e = ECC[c.choose(17, "eccentricity")]; int n = c.thorough() ? 7200 : 720, b = c.choose(36, "arc"), ti = c.choose(4, "tolerance"), k = c.choose(5, "revolution"); mc::Hash h;
  static const int REV[] = {0, -1, 1, -3, 1000};
  for (int j = 0; j < n / 36; j++) one(c, e, 2 * pi * (b * (n / 36) + j) / n + 2 * pi * REV[k], ti, h);
  c.evals(n / 36); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("special", 0, 0) {
  static const double M0[] = {0, pi / 2, pi, 3 * pi / 2, 2 * pi, 4 * pi}, D[] = {0, 1e-300, 1e-20, 1e-16, 1e-15, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1};
  double e = ECC[c.choose(17, "eccentricity")], m = M0[c.choose(6, "base")], d = D[c.choose(13, "offset")]; int s1 = c.choose(2, "sign of the offset"), s2 = c.choose(2, "sign"), ti = c.choose(4, "tolerance"); mc::Hash h;
  one(c, e, (s2 ? -1 : 1) * (m + (s1 ? -d : d)), ti, h); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("eccentricities", 0, 0) {
  int n = c.thorough() ? 2000 : 400, b = c.choose(40, "band"), m = c.choose(97, "mean anomaly"), ti = c.choose(2, "tolerance"); mc::Hash h;
  for (int j = 0; j < n / 40; j++) one(c, (double)(b * (n / 40) + j) / n, 2 * pi * (m - 48) / 48, ti, h);
  c.evals(n / 40); c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("K02", "model_checking",
  "every combination of eccentricity (0 to 0.999999, both sides of the solver's change of starting value), mean anomaly (dense over the circle, in other revolutions, and every quadrant boundary with offsets from 1e-300 to 0.1 to both sides), tolerance and sign, on both solvers, against the root found by bisection in extended precision",
  "17 eccentricities x 720 (quick) / 7200 mean anomalies x 5 revolutions x 4 tolerances; 400 / 2000 further eccentricities x 97 mean anomalies",
  "a solver may report failure for eccentricities above 0.9999; below that it has to converge")
