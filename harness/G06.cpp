// G06: third-body acceleration, its partials, and the Sun/Moon wrapper.
#include "mc.hpp"
#include "egravity.hpp"
#ifndef VAR_COPY
#include "orbit_integration.hpp"
#include "planetpos.hpp"
#endif
#include <cmath>
namespace {
using R = long double;
#ifdef VAR_COPY
#define SFX "-var"
#else
#define SFX ""
#endif
const double DIR[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {0.6, 0.64, 0.48}, {-0.48, 0.6, -0.64}, {0.1, -0.3, 0.9}, {-0.7, -0.7, 0.05}};
const int ND = 10; const double RS[] = {6.6e6, 7.7e6, 4.2e7}, RB[] = {3.6e8, 3.844e8, 1.496e11, 2e7}, GMB[] = {4.9028e12, 1.32712440041e20, 1};
void ref(R GM, const R *r, const R *s, R *a, R H[3][3]) { R d[3], dn = 0, sn = 0; for (int i = 0; i < 3; i++) { d[i] = r[i] - s[i]; dn += d[i] * d[i]; sn += s[i] * s[i]; } dn = std::sqrt(dn); sn = std::sqrt(sn); for (int i = 0; i < 3; i++) { a[i] = -GM * (d[i] / (dn * dn * dn) + s[i] / (sn * sn * sn)); for (int j = 0; j < 3; j++) H[i][j] = -GM * ((i == j) / (dn * dn * dn) - 3 * d[i] * d[j] / (dn * dn * dn * dn * dn)); } }
MC_SCENARIO("point-mass" SFX, 0, 0) {
  int a1 = c.choose(ND, "satellite direction"), k1 = c.choose(3, "radius"), a2 = c.choose(ND, "body direction"), k2 = c.choose(4, "distance"), g = c.choose(3, "GM"); mc::Hash h;
  double r[3], s[3]; for (int i = 0; i < 3; i++) { r[i] = DIR[a1][i] * RS[k1]; s[i] = DIR[a2][i] * RB[k2]; } R rr[3] = {r[0], r[1], r[2]}, ss[3] = {s[0], s[1], s[2]}, A[3], H[3][3]; ref(GMB[g], rr, ss, A, H); R sn = std::sqrt(ss[0] * ss[0] + ss[1] * ss[1] + ss[2] * ss[2]), sc = GMB[g] / (sn * sn);
  R dn = 0; for (int i = 0; i < 3; i++) dn += (rr[i] - ss[i]) * (rr[i] - ss[i]); dn = std::sqrt(dn); sc = std::max(sc, (R)GMB[g] / dn / dn); R sc2 = GMB[g] / (dn * dn * dn); c.step(3); c.evals(3);
  auto same = [&](const char *w, double x, double y, double z) { double q[3] = {x, y, z}; for (int i = 0; i < 3; i++) c.check(std::fabs(q[i] - A[i]) <= 1e-14L * sc, "%s: GM %g, satellite (%g,%g,%g), body (%g,%g,%g): acceleration[%d] is %.17g instead of %.17Lg", w, GMB[g], r[0], r[1], r[2], s[0], s[1], s[2], i, q[i], A[i]); };
  dso::Vector3 v1, v2; for (int i = 0; i < 3; i++) { v1(i) = r[i]; v2(i) = s[i]; } mc::dirty_stack(0xFF); dso::Vector3 v = dso::point_mass_accel(v1, v2, GMB[g]); same("vector form", v(0), v(1), v(2));
#ifndef VAR_COPY
  Eigen::Matrix<double, 3, 1> er(r), es(s), e = dso::point_mass_accel(GMB[g], er, es); same("without partials", e(0), e(1), e(2)); Eigen::Matrix<double, 3, 3> P; P.setConstant(NAN); e = dso::point_mass_accel(GMB[g], er, es, P); same("with partials", e(0), e(1), e(2));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.check(std::fabs(P(i, j) - H[i][j]) <= 1e-14L * sc2, "GM %g, satellite (%g,%g,%g), body (%g,%g,%g): partial (%d,%d) is %.17g instead of %.17Lg", GMB[g], r[0], r[1], r[2], s[0], s[1], s[2], i, j, P(i, j), H[i][j]);
#endif
  h.q(A[0]).q(A[1]).q(A[2]); c.state(h.h); c.outcome(h.h);
}
#ifndef VAR_COPY
// bodies that move in a known way: position as a function of seconds since J2000
void bodies(int target, double et, double *p) { double w = target == 10 ? 1.99e-7 : 2.66e-6, d = target == 10 ? 1.496e8 : 3.844e5; p[0] = d * std::cos(w * et); p[1] = d * 0.917 * std::sin(w * et); p[2] = d * 0.398 * std::sin(w * et); if (target != 10 && target != 301) p[0] = p[1] = p[2] = NAN; }
MC_SCENARIO("sun-moon", 0, 0) {
  static const double DAY[] = {51544, 51544.5, 55555.999, 59000.25, 58849, 60676.9999999}; shim_kernels.clear(); int L = c.thorough() ? 3 : 2; mc::Hash h; double GMS = 0, GMM = 0; int e = dso::get_sun_moon_GM(c.flip("kernel named") ? "k" : nullptr, GMS, GMM); c.check(e == 0 && GMS > 1e11 && GMS < 2e11 && GMM > 4900 && GMM < 4905, "GM status %d: %g %g", e, GMS, GMM);
  for (int q = 0; q < L; q++) { int kd = c.choose(6, "day"), kr = c.choose(ND, "satellite direction"); double r[3]; for (int i = 0; i < 3; i++) r[i] = DIR[kr][i] * RS[1]; Eigen::Matrix<double, 3, 1> er(r), sa, ma, sp; Eigen::Matrix<double, 3, 3> P; sa.setConstant(NAN); ma = sp = sa; P.setConstant(NAN); mc::dirty_stack(0xFF); dso::SunMoon(DAY[kd], er, GMS, GMM, sa, ma, sp, P); c.step();
    R et = ((R)DAY[kd] - 51544.5L) * 86400 + 32.184L; double ps[3], pm[3]; bodies(10, (double)et, ps); bodies(301, (double)et, pm); R rr[3] = {r[0], r[1], r[2]}, S[3], M[3], AS[3], AM[3], HS[3][3], HM[3][3]; for (int i = 0; i < 3; i++) { S[i] = ps[i] * 1e3L; M[i] = pm[i] * 1e3L; } ref((R)GMS * 1e9L, rr, S, AS, HS); ref((R)GMM * 1e9L, rr, M, AM, HM);
    // the epoch passes through a Julian date in double precision: 4e-5 s; the Sun moves 3e4 m/s
    for (int i = 0; i < 3; i++) { c.check(std::fabs(sp(i) - S[i]) <= 5, "TAI %.9f: Sun position[%d] %.17g m instead of %.17Lg", DAY[kd], i, sp(i), S[i]); c.check(std::fabs(sa(i) - AS[i]) <= 2e-15, "TAI %.9f satellite (%g,%g,%g): Sun acceleration[%d] %.17g m/s2 instead of %.17Lg", DAY[kd], r[0], r[1], r[2], i, sa(i), AS[i]); c.check(std::fabs(ma(i) - AM[i]) <= 2e-15, "TAI %.9f satellite (%g,%g,%g): Moon acceleration[%d] %.17g m/s2 instead of %.17Lg", DAY[kd], r[0], r[1], r[2], i, ma(i), AM[i]); for (int j = 0; j < 3; j++) c.check(std::fabs(P(i, j) - HM[i][j]) <= 1e-20, "TAI %.9f: Moon partial (%d,%d) %.17g instead of %.17Lg", DAY[kd], i, j, P(i, j), HM[i][j]); }
    h.q(AS[0]).q(AM[1]); }
  c.evals(L); c.state(h.h); c.outcome(h.h);
}
#endif
} // namespace
#ifndef VAR_COPY
extern "C" void (*shim_spkpos)(int, double, double *) = bodies;
MC_PROPERTY("G06", "model_checking",
  "every satellite direction x radius x body direction x distance x GM through the plain, Eigen and Eigen-with-partials forms; every sequence of Sun/Moon calls (epoch x satellite) with bodies moving in a known way",
  "10 directions, 3 radii, 4 distances, 3 constants; call sequences of length 2 (quick) / 3; src/ and var/icgem",
  "the ephemeris library is replaced by a stand-in with a known motion; epochs carry the rounding of a Julian date in double precision (4e-5 s)")
#endif
