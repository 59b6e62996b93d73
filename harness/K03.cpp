// K03: two-body propagation, its transition matrix and element partials.
#include "mc.hpp"
#include "astrodynamics.hpp"
#include "twobody.hpp"
namespace {
using namespace tb; using V6e = Eigen::Matrix<double, 6, 1>; using M6e = Eigen::Matrix<double, 6, 6>;
const double GM = 3.986004418e14, pi = 3.14159265358979323846;
// Lagrange coefficients and the difference form of Kepler's equation: no angles, no singularities
St prop(const St &s, R dt) {
  R r0 = norm(s.y), a = -R(GM) / (2 * energy(GM, s)), n = std::sqrt(GM / (a * a * a)), sg = dot(s.y, s.y + 3) / std::sqrt(GM * a), q = 1 - r0 / a, M = n * dt;
  R lo = M - 2, hi = M + 2, x; auto F = [&](R y) { return y - q * std::sin(y) + sg * (1 - std::cos(y)) - M; };
  while (F(lo) > 0) lo -= 2; while (F(hi) < 0) hi += 2;
  for (int k = 0; k < 45; k++) { x = (lo + hi) / 2; (F(x) < 0 ? lo : hi) = x; }
  x = (lo + hi) / 2; for (int k = 0; k < 6; k++) x -= F(x) / (1 - q * std::cos(x) + sg * std::sin(x));
  R c = std::cos(x), sn = std::sin(x), r = a * (1 - q * c + sg * sn), f = 1 - a / r0 * (1 - c), g = dt - (x - sn) / n, fd = -std::sqrt(GM * a) / (r * r0) * sn, gd = 1 - a / r * (1 - c);
  St o; for (int k = 0; k < 3; k++) { o.y[k] = f * s.y[k] + g * s.y[3 + k]; o.y[3 + k] = fd * s.y[k] + gd * s.y[3 + k]; } return o;
}
dso::OrbitalElements mk(const Ele &q) { dso::OrbitalElements o; o.semimajor() = q.a; o.eccentricity() = q.e; o.inclination() = q.i; o.Omega() = q.O; o.omega() = q.w; o.mean_anomaly() = q.M; return o; }
const double SMA[] = {7.714e6, 2.66e7, 4.2164e7, 6.7e6}, ANG[] = {0, 0.9, pi / 2, 2.6, pi, 4.1, 3 * pi / 2, 5.7};
V6e dbl(const St &s) { V6e y; for (int k = 0; k < 6; k++) y(k) = s.y[k]; return y; }
St lng(const V6e &y) { St s; for (int k = 0; k < 6; k++) s.y[k] = y(k); return s; }
// fractions of the period: short, quadrants, several revolutions, both directions
const double FR[] = {0.1, -0.25, 0.5, 1, -7.3, 0, 15.37, -1e-4, 0.7};
Ele orbit(mc::Ctx &c, const double *E, int ne, const double *I, int ni) {
  bool T = c.thorough(); Ele q; q.a = SMA[c.choose(T ? 3 : 2, "semi-major axis")]; q.e = E[c.choose(ne, "eccentricity")]; q.i = I[c.choose(ni, "inclination")];
  int s = T ? 1 : 2; q.O = ANG[c.choose(8 / s, "node") * s + (s == 2)]; q.w = ANG[c.choose(8 / s, "perigee") * s]; q.M = ANG[c.choose(8, "mean anomaly")]; return q;
}
std::string lab(const Ele &q) { char b[160]; snprintf(b, sizeof b, "a=%.4Lg e=%.3Lg i=%.6Lg node=%.4Lg perigee=%.4Lg M=%.4Lg", q.a, q.e, q.i, q.O, q.w, q.M); return b; }
MC_SCENARIO("group", 0, 0) {
  static const double E[] = {0, 0.02, 0.3, 0.74, 1e-6, 0.9}, I[] = {0, 1e-3, 1.15, pi / 2, 2.5, pi};
  Ele q = orbit(c, E, c.thorough() ? 6 : 4, I, 6); St s0 = state(GM, q); R P = 2 * PI * std::sqrt(q.a * q.a * q.a / GM), t = 0; V6e Y = dbl(s0), Y0 = Y; s0 = lng(Y);
  int n = c.thorough() ? 3 : 2; mc::Hash h; double gr = 1 / ((1 - (double)q.e) * (1 - (double)q.e)); R h0[3]; cross(s0.y, s0.y + 3, h0); R revs = 0; double path[3];
  for (int k = 0; k < n; k++) {
    double dt = path[k] = (double)(FR[c.choose(c.thorough() ? 9 : 7, "step")] * P); t += dt; revs += std::fabs(dt / P);
    bool full = c.flip("with the transition matrix"); M6e Phi; Phi.setConstant(NAN);
    Y = full ? dso::propagate_state(GM, Y, dt, Phi) : dso::propagate_state(GM, Y, dt); c.step();
    St ex = prop(s0, t); R tol = 2e-14L * gr * gr * (k + 1) * (2 + 2 * PI * revs), d = dist(GM, q.a, Y, ex);
    c.check(d < tol, "%s: after %d steps (last %.1f s, in all %.1Lf s) the state is off by %.2Lg of the orbit", lab(q).c_str(), k + 1, dt, t, d);
    St cur = lng(Y); R hh[3], dh = 0; cross(cur.y, cur.y + 3, hh); for (int j = 0; j < 3; j++) dh = std::max(dh, std::fabs(hh[j] - h0[j])); dh /= norm(h0);
    c.check(dh < 4e-14L * gr * (k + 1) && std::fabs(energy(GM, cur) / energy(GM, s0) - 1) < 4e-14L * gr * gr * (k + 1), "%s: angular momentum changes by %.2Lg and energy by %.2Lg of their values", lab(q).c_str(), dh, std::fabs(energy(GM, cur) / energy(GM, s0) - 1));
    h.q(Y(0)).q(Y(4));
  }
  // one step, and back
  V6e one = dso::propagate_state(GM, Y0, (double)t); R tol = 2e-14L * gr * gr * 4 * (2 + 2 * PI * revs); c.check(dist(GM, q.a, one, lng(Y)) < tol, "%s: one step of %.1Lf s and %d steps differ by %.2Lg of the orbit", lab(q).c_str(), t, n, dist(GM, q.a, one, lng(Y)));
  V6e back = Y; for (int k = n; k--;) back = dso::propagate_state(GM, back, -path[k]);
  c.check(dist(GM, q.a, back, s0) < 2 * tol, "%s: stepping back misses the start by %.2Lg of the orbit", lab(q).c_str(), dist(GM, q.a, back, s0));
  dso::OrbitalElements el = mk(q); St ex = state(GM, q, t); V6e ye = dso::propagate_state(GM, el, (double)t); int er = 5; V6e y2 = dso::elements2state(GM, (double)t, el, er); dso::Vector3 r, v; int rc = dso::elements2state(el, (double)t, r, v, GM);
  V6 y3{{r.x(), r.y(), r.z(), v.x(), v.y(), v.z()}}; V6e y4 = dso::perifocal2equatorial(el, dso::elements2perifocal(GM, el, (double)t));
  R d = std::max(std::max(dist(GM, q.a, ye, ex), dist(GM, q.a, y2, ex)), std::max(dist(GM, q.a, y3, ex), dist(GM, q.a, y4, ex)));
  c.check(!er && !rc && d < tol, "%s: the elements after %.1Lf s give states off by %.2Lg %.2Lg %.2Lg %.2Lg of the orbit", lab(q).c_str(), t, dist(GM, q.a, ye, ex), dist(GM, q.a, y2, ex), dist(GM, q.a, y3, ex), dist(GM, q.a, y4, ex));
  c.state(h.h); c.outcome(h.h);
}
R scale(const Ele &q, int k) { return k < 3 ? q.a : std::sqrt(GM / q.a); }
MC_SCENARIO("transition-matrix", 0, 0) {
  static const double E[] = {0.02, 0.3, 0.74, 1e-3, 0.9}, I[] = {1.15, pi / 2, 2.5, 1e-2, pi - 1e-3};
  Ele q = orbit(c, E, c.thorough() ? 5 : 4, I, 5); R P = 2 * PI * std::sqrt(q.a * q.a * q.a / GM); double dt = (double)(FR[c.choose(c.thorough() ? 9 : 7, "time")] * P), t2 = (double)(0.31L * P);
  St s0 = lng(dbl(state(GM, q))); V6e Y0 = dbl(s0); M6e Phi, Ph2; Phi.setConstant(NAN); Ph2.setConstant(NAN); V6e Y = dso::propagate_state(GM, Y0, dt, Phi); c.step();
  V6e Yp = dso::propagate_state(GM, Y0, dt); c.check((Y - Yp).cwiseAbs().maxCoeff() == 0, "%s: the state depends on whether partials are asked for", lab(q).c_str());
  R big = 1, rel = 0, cond = 1 / ((1 - q.e) * (1 - q.e)); int wi = 0, wj = 0; R ref[6][6];
  for (int j = 0; j < 6; j++) { R hs = 2e-7L * (1 - q.e) * scale(q, j) * (j < 3 ? 1 : 1); St a = s0, b = s0, a2 = s0, b2 = s0; a.y[j] += hs; b.y[j] -= hs; a2.y[j] += 2 * hs; b2.y[j] -= 2 * hs; a = prop(a, dt); b = prop(b, dt); a2 = prop(a2, dt); b2 = prop(b2, dt);
    for (int i = 0; i < 6; i++) { ref[i][j] = (8 * (a.y[i] - b.y[i]) - (a2.y[i] - b2.y[i])) / (12 * hs) / scale(q, i) * scale(q, j); big = std::max(big, std::fabs(ref[i][j])); } }
  for (int j = 0; j < 6; j++) for (int i = 0; i < 6; i++) { R d = std::fabs((R)Phi(i, j) / scale(q, i) * scale(q, j) - ref[i][j]) / big; if (!(d <= rel)) { rel = d; wi = i; wj = j; } }
  R tol = (1e-12L / (q.e * std::sin(q.i)) + 1e-11L) * cond * cond;
  c.check(rel < tol, "%s: transition matrix over %.1f s: element (%d,%d) is %.9Lg instead of %.9Lg (in orbit units; largest %.3Lg)", lab(q).c_str(), dt, wi, wj, (R)Phi(wi, wj) / scale(q, wi) * scale(q, wj), ref[wi][wj], big);
  // composition
  M6e Pb, Pt; Pb.setConstant(7); V6e Yb = dso::propagate_state(GM, Y, t2, Pb); Yb = dso::propagate_state(GM, Y0, dt + t2, Pt); M6e pr = Pb * Phi; R dd = 0, bb = 1, bp = 1;
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { R s = scale(q, j) / scale(q, i); dd = std::max(dd, std::fabs((R)(pr(i, j) - Pt(i, j)) * s)); bb = std::max(bb, std::fabs((R)Pb(i, j) * s)); bp = std::max(bp, std::fabs((R)Phi(i, j) * s)); }
  c.check(dd < 6 * tol * bb * bp, "%s: transition matrices over %.1f s and %.1f s do not compose (%.2Lg)", lab(q).c_str(), dt, t2, dd);
  mc::Hash h; h.q((double)rel > 1e-8 ? 1 : 0).q(Phi(0, 0)).q(Phi(3, 5)); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("element-partials", 0, 0) {
  static const double E[] = {0, 0.02, 0.3, 0.74, 1e-6, 0.9}, I[] = {0, 1e-3, 1.15, pi / 2, 2.5, pi};
  Ele q = orbit(c, E, c.thorough() ? 6 : 4, I, 6); R P = 2 * PI * std::sqrt(q.a * q.a * q.a / GM); double dt = (double)(FR[c.choose(c.thorough() ? 9 : 7, "time")] * P);
  mc::dirty_stack(0xFF); M6e D = dso::state_partials(GM, mk(q), dt); c.step(); R rel = 0, big = 1, ref[6][6], sc[6] = {q.a, 1, 1, 1, 1, 1}; int wi = 0, wj = 0; R hs = 2e-6L * (1 - q.e);
  for (int j = 0; j < 6; j++) {
    auto at = [&](int m) { Ele p = q; R *f[] = {&p.a, &p.e, &p.i, &p.O, &p.w, &p.M}; R off = m * hs; 
      if (j == 1 && q.e < 1e-4) { // below zero eccentricity: the same curve with perigee and anomaly turned by half a revolution
        p.e += off; if (p.e < 0) { p.e = -p.e; p.w += PI; R n = std::sqrt(GM / (p.a * p.a * p.a)); (void)n; p.M += PI; } }
      else *f[j] += off * sc[j];
      return state(GM, p, dt); };
    St a = at(1), b = at(-1), a2 = at(2), b2 = at(-2);
    for (int i = 0; i < 6; i++) { ref[i][j] = (8 * (a.y[i] - b.y[i]) - (a2.y[i] - b2.y[i])) / (12 * hs) / scale(q, i); big = std::max(big, std::fabs(ref[i][j])); }
  }
  for (int j = 0; j < 6; j++) for (int i = 0; i < 6; i++) { R d = std::fabs((R)D(i, j) / scale(q, i) * sc[j] - ref[i][j]) / big; if (!(d <= rel)) { rel = d; wi = i; wj = j; } }
  R cond = 1 / ((1 - q.e) * (1 - q.e)), tol = 2e-11L * cond * cond;
  c.check(rel < tol, "%s: partials after %.1f s: element (%d,%d) is %.9Lg instead of %.9Lg (in orbit units)", lab(q).c_str(), dt, wi, wj, (R)D(wi, wj) / scale(q, wi) * sc[wj], ref[wi][wj]);
  mc::Hash h; h.q(D(0, 0)).q(D(3, 1)).q(D(5, 2)); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("rotation", 0, 0) {
  static const double A[] = {0, pi / 2, pi, 3 * pi / 2, 0.4, 2.2, 3.7, 5.1, -0.8, 7.5, 1e-9, 2 * pi}; double O = A[c.choose(12, "node")], w = A[c.choose(12, "perigee")], i = A[c.choose(12, "inclination")];
  dso::Mat3x3 T = dso::perifocal2equatorial_matrix(O, w, i); c.step(); R m[3][3]; rot(O, i, w, m);
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) c.check(std::fabs(T(a, b) - (double)m[a][b]) < 1e-15 * 4, "rotation for node %g perigee %g inclination %g: element (%d,%d) is %.16g instead of %.16Lg", O, w, i, a, b, T(a, b), m[a][b]);
  dso::OrbitalElements el; el.Omega() = O; el.omega() = w; el.inclination() = i; mc::Hash h;
  for (int k = 0; k < 6; k++) { V6e y = V6e::Zero(); y(k) = 3; y((k + 2) % 6) = -0.5; V6e e = dso::perifocal2equatorial(el, y), b = dso::equatorial2perifocal(el, e); c.check((b - y).cwiseAbs().maxCoeff() < 1e-14, "rotation for node %g perigee %g inclination %g is not undone", O, w, i); h.q(e(0)); }
  c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("K03", "model_checking",
  "every sequence of time steps (short, fractions of the period, whole and many revolutions, forward and backward, zero), each with and without partials, from every orbit of the lattice: state against the exact solution at the accumulated time, energy and angular momentum at every step, one long step against the sequence, and the sequence run backwards; the transition matrix against extended-precision differences of the exact solution, and composed; the element partials likewise; the perifocal rotation for every triple of angles",
  "sequences of 2 (quick) / 3 steps over 7 / 9 durations from 6144 / 36864 orbits",
  "transition matrices are defined away from circular and equatorial orbits (e >= 1e-3, sin i >= 1e-3), since the method divides by e and sin i; tolerances are rounding, growing with time and with (1-e)^-4")
