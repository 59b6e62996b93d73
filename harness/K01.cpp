// K01: orbital elements and Cartesian states.
#include "mc.hpp"
#include "astrodynamics.hpp"
#include "twobody.hpp"
namespace {
using namespace tb; using V6e = Eigen::Matrix<double, 6, 1>;
const double GM = 3.986004418e14;
const double pi = 3.14159265358979323846;
// quadrant boundaries (exact and a hair to each side) and interior points
const double ANG[] = {0, pi / 2, pi, 3 * pi / 2, 0.7, 2.3, 4.0, 5.5, 1e-9, 2 * pi - 1e-9, pi - 1e-9, pi / 2 + 1e-9, 1e-3, pi + 1e-3, 2 * pi - 1e-3, 3 * pi / 2 - 1e-6, pi + 1e-12, 0.1, 1.2, 1.9, 2.9, 3.6, 5.0, 6.0};
const double INC[] = {0, 1e-9, 1e-3, 0.5, pi / 2, 1.15, 2.0, pi - 1e-6, pi, pi / 2 - 1e-9, 1e-6, 3.0};
const double ECC[] = {0, 1e-3, 0.02, 0.3, 0.74, 0.9, 1e-12, 1e-7, 0.95, 0.6};
const double SMA[] = {7.714e6, 42.164e6, 6.6e6, 2.66e7};
dso::OrbitalElements mk(double a, double e, double i, double O, double w, double M) { dso::OrbitalElements q; q.semimajor() = a; q.eccentricity() = e; q.inclination() = i; q.Omega() = O; q.omega() = w; q.mean_anomaly() = M; return q; }
bool rng(double x) { return x >= 0 && x <= 2 * pi; }
MC_SCENARIO("conversions", 0, 0) {
  bool T = c.thorough(); int na = T ? 24 : 17;
  double a = SMA[c.choose(T ? 4 : 2, "semi-major axis")], e = ECC[c.choose(T ? 10 : 8, "eccentricity")], i = INC[c.choose(T ? 12 : 9, "inclination")], O = ANG[c.choose(na, "node")], w = ANG[c.choose(na, "perigee")];
  mc::Hash h;
  for (int m = 0; m < na; m++) {
    double M = ANG[m]; Ele q{a, e, i, O, w, M}; St ref = state(GM, q); dso::OrbitalElements el = mk(a, e, i, O, w, M);
    auto lab = [&] { static char b[160]; snprintf(b, sizeof b, "a=%.4g e=%.3g i=%.10g node=%.10g perigee=%.10g M=%.10g", a, e, i, O, w, M); return b; };
    double k = 1 / (1 - e); // growth of rounding near perigee
    double tf = 4e-14 * k * k, tb_ = 4e-13 * k * k;
    // elements -> state, every variant
    int er = 7; V6e y = dso::elements2state(GM, 0e0, el, er);
    c.check(er == 0 && dist(GM, a, y, ref) < tf, "%s: elements2state (vector) is off by %.2Lg of the orbit", lab(), dist(GM, a, y, ref));
    dso::Vector3 r, v; int rc = dso::elements2state(el, 0e0, r, v, GM); V6 yv{{r.x(), r.y(), r.z(), v.x(), v.y(), v.z()}};
    c.check(rc == 0 && dist(GM, a, yv, ref) < tf, "%s: elements2state (position, velocity) is off by %.2Lg of the orbit", lab(), dist(GM, a, yv, ref));
    V6e z = dso::propagate_state(GM, el, 0e0); c.check(dist(GM, a, z, ref) < tf, "%s: propagate_state over no time is off by %.2Lg of the orbit", lab(), dist(GM, a, z, ref));
    // perifocal path
    V6e pf = dso::elements2perifocal(GM, el); R pp[4]; planar(GM, a, e, kepler(e, M), pp); St pr{{pp[0], pp[1], 0, pp[2], pp[3], 0}};
    c.check(dist(GM, a, pf, pr) < tf, "%s: perifocal state is off by %.2Lg", lab(), dist(GM, a, pf, pr));
    V6e eq = dso::perifocal2equatorial(el, pf); c.check(dist(GM, a, eq, ref) < tf, "%s: perifocal2equatorial is off by %.2Lg", lab(), dist(GM, a, eq, ref));
    V6e bk = dso::equatorial2perifocal(el, eq); c.check(dist(GM, a, bk, pr) < tf, "%s: equatorial2perifocal is off by %.2Lg", lab(), dist(GM, a, bk, pr));
    // state -> elements, every variant; the input is the rounded reference state
    V6e Y; for (int j = 0; j < 6; j++) Y(j) = (double)ref.y[j];
    dso::OrbitalElements g[2]; g[0] = dso::state2elements(GM, Y);
    c.check(dso::state2elements(dso::Vector3(Y(0), Y(1), Y(2)), dso::Vector3(Y(3), Y(4), Y(5)), g[1], GM) == 0, "state2elements fails");
    for (auto &s : g) {
      const char *nm = &s == g ? "vector" : "position, velocity";
      c.check(s.inclination() >= 0 && s.inclination() <= pi && rng(s.Omega()) && rng(s.omega()), "%s: state2elements (%s) gives i=%g node=%g perigee=%g", lab(), nm, s.inclination(), s.Omega(), s.omega());
      c.check(std::fabs(s.semimajor() / a - 1) < tb_ && std::fabs(s.eccentricity() - e) < tb_ && std::fabs(s.inclination() - i) < tb_, "%s: state2elements (%s) gives a=%.15g e=%.15g i=%.15g", lab(), nm, s.semimajor(), s.eccentricity(), s.inclination());
      if (std::sin(i) > 1e-4) c.check(std::fabs(wrap((R)s.Omega() - O)) < tb_ / std::sin(i), "%s: state2elements (%s) gives node %.15g", lab(), nm, s.Omega());
      if (std::sin(i) > 1e-4 && e > 1e-4) { R t = tb_ * (1 / std::sin(i) + 1 / e); c.check(std::fabs(wrap((R)s.omega() - w)) < t && std::fabs(wrap((R)s.mean_anomaly() - M)) < t, "%s: state2elements (%s) gives perigee %.15g M %.15g", lab(), nm, s.omega(), s.mean_anomaly()); }
      St back = state(GM, Ele{s.semimajor(), s.eccentricity(), s.inclination(), s.Omega(), s.omega(), s.mean_anomaly()});
      c.check(dist(GM, a, back, ref) < tb_ * k, "%s: the elements from state2elements (%s) describe a state off by %.2Lg of the orbit (a=%.10g e=%.10g i=%.10g node=%.10g perigee=%.10g M=%.10g)", lab(), nm, dist(GM, a, back, ref), s.semimajor(), s.eccentricity(), s.inclination(), s.Omega(), s.omega(), s.mean_anomaly());
    }
    R hv[3]; cross(ref.y, ref.y + 3, hv);
    for (int n = 0; n < 3; n++) {
      double kp[6] = {NAN, NAN, NAN, NAN, NAN, NAN}; const char *nm[] = {"Curtis", "Vallado", "Montenbruck"};
      int st = n == 0 ? dso::state2kepler(Y.data(), kp, GM) : n == 1 ? dso::alternatives::state2kepler_vallado(Y.data(), kp, GM) : dso::alternatives::state2kepler_montenbruck(Y.data(), kp, GM);
      c.check(st == 0 && kp[1] >= 0 && kp[1] <= pi && rng(kp[2]) && rng(kp[4]) && rng(kp[5]), "%s: state2kepler (%s) gives i=%g node=%g perigee=%g anomaly=%g", lab(), nm[n], kp[1], kp[2], kp[4], kp[5]);
      c.check(std::fabs((double)(kp[0] / norm(hv) - 1)) < tb_ && std::fabs(kp[3] - e) < tb_ && std::fabs(kp[1] - i) < tb_, "%s: state2kepler (%s) gives h=%.15g e=%.15g i=%.15g", lab(), nm[n], kp[0], kp[3], kp[1]);
      St back = from_kepler(GM, kp); c.check(dist(GM, a, back, ref) < tb_ * k, "%s: the elements from state2kepler (%s) describe a state off by %.2Lg of the orbit (i=%.10g node=%.10g e=%.10g perigee=%.10g anomaly=%.10g)", lab(), nm[n], dist(GM, a, back, ref), kp[1], kp[2], kp[3], kp[4], kp[5]);
    }
    c.step(); h.q(g[0].omega() * 1e3).q(y(0));
  }
  c.evals(na); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("right-ascension", 0, 0) {
  static const double L[] = {0, 1e-12, 1e-6, 0.1, 0.5, pi / 4, 1, pi / 2 - 1e-9, pi / 2}; int sg = c.choose(2, "sign"), li = c.choose(9, "declination"), ai = c.choose(17, "right ascension"); double s = SMA[c.choose(4, "distance")];
  double d = (sg ? -1 : 1) * L[li], al = ANG[ai]; int ax = c.choose(3, "exact zero");
  R x[3] = {s * std::cos((R)d) * std::cos((R)al), s * std::cos((R)d) * std::sin((R)al), s * std::sin((R)d)}; double X[3] = {(double)x[0], (double)x[1], (double)x[2]};
  if (ax == 1) X[1] = 0; if (ax == 2) X[0] = 0;
  if (X[0] == 0 && X[1] == 0 && X[2] == 0) c.skip();
  double a = NAN, dd = NAN; int rc = dso::pos2ad(dso::Vector3(X[0], X[1], X[2]), a, dd); c.step();
  double p = std::hypot(X[0], X[1]), wd = std::atan2(X[2], p);
  c.check(rc == 0 && a >= 0 && a <= 2 * pi && dd >= -pi / 2 && dd <= pi / 2, "(%.17g,%.17g,%.17g): right ascension %g declination %g", X[0], X[1], X[2], a, dd);
  c.check(std::fabs(dd - wd) < 1e-14, "(%.17g,%.17g,%.17g): declination %.17g instead of %.17g", X[0], X[1], X[2], dd, wd);
  if (p > 1e-7) c.check(std::fabs((double)wrap((R)a - std::atan2((R)X[1], (R)X[0]))) < 1e-14, "(%.17g,%.17g,%.17g): right ascension %.17g instead of %.17g", X[0], X[1], X[2], a, std::atan2(X[1], X[0]));
  mc::Hash h; h.q(a).q(dd); c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("K01", "model_checking",
  "every combination of semi-major axis, eccentricity, inclination, node, perigee and mean anomaly from the alphabets (all quadrant boundaries exactly and slightly to each side; circular, nearly circular, equatorial, nearly equatorial, polar and retrograde orbits), through every conversion in both directions, against the two-body formulas in extended precision; every direction and distance for right ascension and declination",
  "2 x 8 x 9 x 17^3 orbits (quick) / 4 x 10 x 12 x 24^3; eccentricity up to 0.95; directions complete over the alphabet",
  "bound orbits of eccentricity up to 0.95; where an angle is undefined (circular or equatorial orbits) any value is accepted that, with the others, describes the same state; the tolerance is rounding, growing as (1-e)^-3 towards parabolic")
