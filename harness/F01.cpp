// F01: celestial <-> terrestrial transformation.
#include "mc.hpp"
#include "datetime/utcdates.hpp"
#include "orbit_integration.hpp"
#include "iers2010/iersc.hpp"
#include "iers2010/iau.hpp"
#include <cmath>
namespace {
using R = long double; struct M3 { R m[3][3]; };
M3 mul(const M3 &a, const M3 &b) { M3 r{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; return r; }
M3 tr(const M3 &a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a.m[j][i]; return r; }
M3 rot(int ax, R a) { M3 r{}; int i = (ax + 1) % 3, j = (ax + 2) % 3; r.m[ax][ax] = 1; r.m[i][i] = r.m[j][j] = std::cos(a); r.m[i][j] = std::sin(a); r.m[j][i] = -std::sin(a); return r; }
M3 cip(R x, R y, R s) { R d = std::asin(std::sqrt(x * x + y * y)), e = std::atan2(y, x); return mul(rot(2, -(e + s)), mul(rot(1, d), rot(2, e))); }
M3 polar(R x, R y, R sp) { return mul(rot(0, -y), mul(rot(1, -x), rot(2, sp))); }
void app(const M3 &a, const R *v, R *o) { for (int i = 0; i < 3; i++) { o[i] = 0; for (int j = 0; j < 3; j++) o[i] += a.m[i][j] * v[j]; } }
Eigen::Matrix<double, 3, 3> E(const M3 &a) { Eigen::Matrix<double, 3, 3> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = (double)a.m[i][j]; return r; }
M3 U(const Eigen::Matrix<double, 3, 3> &a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = a(i, j); return r; }
const R PI = 3.14159265358979323846264338327950288L, AS = PI / 648000; const double W = iers2010::OmegaEarth;
const double Y[][6] = {{7e6, 0, 0, 0, 7.5e3, 0}, {0, 7e6, 0, -1e3, 0, 7e3}, {0, 0, -7e6, 5e3, 5e3, 0}, {4.1e6, -3.3e6, 5.2e6, -2.2e3, 6.1e3, 3.9e3}, {-4.6e6, 2.1e6, 3.6e6, 0, 0, 0}, {1e3, -2e3, 1.5e3, 1, 2, -3}};
const int NY = 6;
struct St { R r[3], v[3]; };
St cel2ter(const M3 &Rm, const M3 &dR, const St &s) { St o; R t[3]; app(Rm, s.r, o.r); app(Rm, s.v, o.v); app(dR, s.r, t); for (int i = 0; i < 3; i++) o.v[i] += t[i]; return o; }
St ter2cel(const M3 &Rm, const M3 &dR, const St &s) { St o; R t[3]; app(tr(Rm), s.r, o.r); app(tr(Rm), s.v, o.v); app(tr(dR), s.r, t); for (int i = 0; i < 3; i++) o.v[i] += t[i]; return o; }
M3 deriv(const M3 &P, R era, const M3 &Q, R w) { M3 S{}; S.m[0][1] = w; S.m[1][0] = -w; return mul(P, mul(mul(S, rot(2, era)), Q)); }

// conversions there and back, in any order, for given matrices
MC_SCENARIO("states", 0, 0) {
  static const double X[][3] = {{0, 0, 0}, {1.5e-3, -2e-5, 1e-9}, {-1e-3, 4.6e-5, -3e-8}}, P[][3] = {{0, 0, 0}, {0.25, 0.4, -4e-5}, {-0.3, 0.1, 1e-5}}, ERA[] = {0, 1e-9, 1.0, 1.5707963267948966, 3.141592653589793, 4.5, 6.2831853}, LOD[] = {0, 1.5e-3, -1e-3, 86.4};
  int kx = c.choose(3, "pole"), kp = c.choose(3, "polar motion"), ke = c.choose(7, "angle"), kl = c.choose(4, "length of day"), ky = c.choose(NY, "state"); int L = c.thorough() ? 5 : 4;
  M3 q = cip(X[kx][0], X[kx][1], X[kx][2]), p = polar(P[kp][0] * AS, P[kp][1] * AS, P[kp][2] * AS); Eigen::Matrix<double, 3, 3> eq = E(q), ep = E(p); q = U(eq); p = U(ep); R w = (R)W * (1 - (R)LOD[kl] / 86400); M3 Rm = mul(p, mul(rot(2, ERA[ke]), q)), dR = deriv(p, ERA[ke], q, w);
  St s; Eigen::Matrix<double, 6, 1> y; for (int i = 0; i < 3; i++) { s.r[i] = Y[ky][i]; s.v[i] = Y[ky][i + 3]; } for (int i = 0; i < 6; i++) y(i) = Y[ky][i]; mc::Hash h; std::string hist; R rs = 0, vs = 0; for (int i = 0; i < 3; i++) { rs += std::fabs(s.r[i]); vs += std::fabs(s.v[i]); } vs += rs * W;
  for (int k = 0; k < L; k++) {
    int op = c.choose(4, "operation"); static const char *ON[] = {"cel2ter ", "ter2cel ", "position cel2ter ", "position ter2cel "}; hist += ON[op]; mc::dirty_stack(0xFF); Eigen::Matrix<double, 3, 1> r = y.block<3, 1>(0, 0), o;
    switch (op) { case 0: y = dso::ycel2ter(y, eq, ERA[ke], LOD[kl], ep); s = cel2ter(Rm, dR, s); break; case 1: y = dso::yter2cel(y, eq, ERA[ke], LOD[kl], ep); s = ter2cel(Rm, dR, s); break; case 2: o = dso::rcel2ter(r, eq, ERA[ke], ep); break; case 3: o = dso::rter2cel(r, eq, ERA[ke], ep); break; }
    c.step(); vs += rs * W; R e[3]; if (op >= 2) { app(op == 2 ? Rm : tr(Rm), s.r, e); for (int i = 0; i < 3; i++) c.check(std::fabs(o(i) - e[i]) <= 1e-14L * rs, "%s: position[%d] %.17g instead of %.17Lg", hist.c_str(), i, o(i), e[i]); }
    for (int i = 0; i < 3; i++) { c.check(std::fabs(y(i) - s.r[i]) <= 1e-14L * rs, "%s(pole %d, polar motion %d, angle %g, lod %g, state %d): position[%d] %.17g instead of %.17Lg", hist.c_str(), kx, kp, ERA[ke], LOD[kl], ky, i, y(i), s.r[i]); c.check(std::fabs(y(i + 3) - s.v[i]) <= 1e-14L * vs, "%s(pole %d, polar motion %d, angle %g, lod %g, state %d): velocity[%d] %.17g instead of %.17Lg", hist.c_str(), kx, kp, ERA[ke], LOD[kl], ky, i, y(i + 3), s.v[i]); }
    h.q((double)s.r[0]).q((double)s.v[1]);
  }
  c.evals(L); c.state(h.h); c.outcome(h.h);
}
// the elements of the transformation at an epoch
void table(dso::EopLookUpTable &t, long m0, int n, int form) {
  t.resize(n); for (int i = 0; i < n; i++) { int e; long m = m0 + i; double leap = dso::dat((double)m, e), base = dso::dat((double)m0, e); *t.mjd(i) = m + (leap + 32.184) / 86400; *t.xp(i) = form ? 0.2 + 0.003 * i : 0; *t.yp(i) = form ? 0.35 - 0.002 * i : 0; *t.dut(i) = form ? -0.3 + 0.0012 * i + (leap - base) : 0; *t.dx(i) = form == 2 ? 0.5 + 0.01 * i : 0; *t.dy(i) = form == 2 ? -0.7 - 0.02 * i : 0; *t.lod(i) = form ? 1.3e-3 + 1e-5 * i : 0; *t.omega(i) = W; }
}
MC_SCENARIO("elements", 0, 0) {
  static const long M0[] = {57749, 58844, 51540}; static const double F[] = {0, 1e-8, 0.25, 0.5, 0.999, 36.0 / 86400, 37.0 / 86400, 36.5 / 86400, 68.0 / 86400, 0.9999999}; int n = 12, km = c.choose(3, "first day"), form = c.choose(3, "table"), L = c.thorough() ? 2 : 1; mc::Hash h; dso::EopLookUpTable t(3); table(t, M0[km], n, form);
  for (int q = 0; q < L; q++) {
    int kd = c.choose(n + 4, "day") - 2, kf = c.choose(10, "fraction"); double tai = M0[km] + kd + F[kf]; Eigen::Matrix<double, 3, 3> q3, p3; q3.setConstant(NAN); p3 = q3; double era = NAN, lod = NAN; mc::dirty_stack(0xFF); int rc = dso::gcrs2itrs(tai, t, q3, era, p3, lod); c.step();
    R ns = std::floor((R)(tai - (long)tai) * 86400 * 1e9L + 1e-3L); R tt = (R)(long)tai + (ns * 1e-9L + 32.184L) / 86400; dso::EopRecord e; int rr = t.interpolate((double)tt, e); if (std::fabs((double)tt - *t.mjd(0)) < 1e-9 || std::fabs((double)tt - *t.mjd(n - 1)) < 1e-9) c.skip();
    c.check((rc != 0) == (rr != 0), "TAI %.9f: status %d where the table gives %d", tai, rc, rr); if (rc || rr) { h.i(rc != 0); continue; }
    double x, y; iers2010::sofa::xy06(2400000.5, (double)tt, x, y); double s = iers2010::sofa::s06(2400000.5, (double)tt, x, y); M3 Q = cip(x + e.dx * AS, y + e.dy * AS, s), P = polar(e.xp * AS, e.yp * AS, iers2010::sofa::sp00(2400000.5, (double)tt));
    // UTC from TAI by the leap second count at that UTC
    int ex; long d = (long)tai; R f = ns * 1e-9L; R u = f - dso::dat((double)d, ex); if (u < 0) { d--; u = f + 86400 - dso::dat((double)d, ex); } R ut1 = (u + e.dut) / 86400 + d, a = 2 * PI * (std::fmod(ut1, 1.0L) + 0.5L + 0.7790572732640L + 0.00273781191135448L * (ut1 - 51544.5L)); R da = std::remainder((R)era - a, 2 * PI);
    c.check(std::fabs(da) < 2e-10L && era >= -1e-12 && era < 6.2831853072, "TAI %.9f table %d: rotation angle %.15g, off by %.3Lg rad (%.3Lg s)", tai, form, era, da, da / W);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { c.check(std::fabs(q3(i, j) - Q.m[i][j]) < 1e-14L, "TAI %.9f table %d: celestial matrix (%d,%d) %.17g instead of %.17Lg", tai, form, i, j, q3(i, j), Q.m[i][j]); c.check(std::fabs(p3(i, j) - P.m[i][j]) < 1e-14L, "TAI %.9f table %d: polar motion matrix (%d,%d) %.17g instead of %.17Lg", tai, form, i, j, p3(i, j), P.m[i][j]); }
    c.check(std::fabs(lod - e.lod) < 1e-9, "TAI %.9f table %d: length of day %.12g instead of %.12g", tai, form, lod, e.lod);
    // a point fixed in space seen from the ground moves as the velocity transformation says
    if (form && kd > 3 && kd < 8 && kf != 0 && kf != 9) { double dt = 20; Eigen::Matrix<double, 3, 3> q1, q2, p1, p2; double e1, e2, l1, l2; int k1 = dso::gcrs2itrs(tai - dt / 86400, t, q1, e1, p1, l1), k2 = dso::gcrs2itrs(tai + dt / 86400, t, q2, e2, p2, l2); bool leap = std::fabs(std::remainder(e2 - e1, 2 * (double)PI) - 2 * dt * W) > 1e-8;
      if (!k1 && !k2 && !leap) for (int k = 0; k < NY; k++) { Eigen::Matrix<double, 6, 1> y0; for (int i = 0; i < 3; i++) { y0(i) = Y[k][i]; y0(i + 3) = 0; } auto v = dso::ycel2ter(y0, q3, era, lod, p3); Eigen::Matrix<double, 3, 1> r0 = y0.block<3, 1>(0, 0), d1 = (dso::rcel2ter(r0, q2, e2, p2) - dso::rcel2ter(r0, q1, e1, p1)) / (2 * dt); for (int i = 0; i < 3; i++) c.check(std::fabs(d1(i) - v(i + 3)) < 2e-3, "TAI %.9f: ground velocity of a fixed point %.9g instead of %.9g", tai, v(i + 3), d1(i)); } }
    h.q(era).q(q3(0, 2)).q(p3(2, 0));
  }
  c.evals(L); c.state(h.h); c.outcome(h.h);
}
} // namespace
extern "C" void (*shim_spkpos)(int, double, double *) = nullptr;
MC_PROPERTY("F01", "model_checking",
  "every sequence of state and position conversions, in both directions, for every (pole, polar motion, rotation angle, length of day, state); the matrices, rotation angle and length of day at every epoch of a lattice that covers both edges of the table, day boundaries and a leap second, for every table form",
  "conversion sequences of length 4 (quick) / 5 over 756 configurations x 6 states; 3 tables x 3 starts x 16 days x 10 fractions, one call (quick) or every pair of calls",
  "the precession-nutation series is replaced by its leading terms (libsofa is not installed); the rotation matrices are rebuilt in extended precision; the rotation of the pole itself is neglected in the velocity, as documented")
