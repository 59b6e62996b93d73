// A02: drag, radiation pressure, exponential atmosphere.
#include "mc.hpp"
#include "astrodynamics.hpp"
#include "atmosphere.hpp"
#include "iers2010/iersc.hpp"
#include <cmath>
namespace {
using R = long double; using V3 = Eigen::Matrix<double, 3, 1>; using M3 = Eigen::Matrix<double, 3, 3>;
const double DIR[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0.6, 0.64, 0.48}, {-0.48, 0.6, -0.64}, {0, -0.6, 0.8}, {0.1, -0.3, -0.9}}; const int ND = 8;
void drag(const R *r, const R *v, R rho, R k, R *a) { const R w = iers2010::OmegaEarth; R u[3] = {v[0] + w * r[1], v[1] - w * r[0], v[2]}, n = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); for (int i = 0; i < 3; i++) a[i] = -0.5L * k * rho * n * u[i]; }
M3 rotm(int k) { M3 m = M3::Identity(); if (k) { double a = k == 1 ? 2e-5 : 0.7, b = k == 1 ? -1.5e-3 : -0.4; M3 x = M3::Identity(), y = M3::Identity(); x(1, 1) = x(2, 2) = std::cos(a); x(1, 2) = std::sin(a); x(2, 1) = -x(1, 2); y(0, 0) = y(1, 1) = std::cos(b); y(0, 1) = std::sin(b); y(1, 0) = -y(0, 1); m = y * x; } return m; }
MC_SCENARIO("drag", 0, 0) {
  static const double RAD[] = {6.5e6, 7.71e6, 4.2e7}, SP[] = {7.2e3, 3.1e3, 1.0}, AREA[] = {10, 0.3}, CD[] = {2.2, -1, 0}, MASS[] = {500, 3}, RHO[] = {1e-12, 3e-5, 0};
  int kr = c.choose(ND, "position"), kd = c.choose(3, "radius"), kv = c.choose(ND, "velocity"), ks = c.choose(3, "speed"), ka = c.choose(2, "area"), kc = c.choose(3, "coefficient"), km = c.choose(2, "mass"), kh = c.choose(3, "density"), kg = c.choose(3, "density gradient");
  R r[3], v[3], a[3]; V3 er, ev; for (int i = 0; i < 3; i++) { er(i) = DIR[kr][i] * RAD[kd]; ev(i) = DIR[kv][i] * SP[ks]; r[i] = er(i); v[i] = ev(i); } double grad[3] = {kg == 1 ? 1e-17 : 0, kg == 1 ? -2e-17 : kg == 2 ? 4e-11 : 0, kg == 2 ? 1e-11 : 0}; R k = (R)CD[kc] * AREA[ka] / MASS[km], rho = RHO[kh];
  drag(r, v, rho, k, a); R sc = std::fabs(k) * rho * 1e8L + 1e-300L; auto lab = [&] { static char b[300]; snprintf(b, sizeof b, "position (%g,%g,%g) velocity (%g,%g,%g) area %g coefficient %g mass %g density %g", er(0), er(1), er(2), ev(0), ev(1), ev(2), AREA[ka], CD[kc], MASS[km], RHO[kh]); return b; };
  mc::dirty_stack(0xFF); V3 p = dso::drag_accel(er, ev, AREA[ka], CD[kc], MASS[km], RHO[kh]); c.step(3);
  for (int i = 0; i < 3; i++) c.check(std::fabs(p(i) - a[i]) <= 1e-14L * sc, "%s: acceleration[%d] %.17g instead of %.17Lg", lab(), i, p(i), a[i]);
  V3 eg(grad[0], grad[1], grad[2]), dc; M3 dr, dv; dr.setConstant(NAN); dv = dr; dc.setConstant(NAN); mc::dirty_stack(0xFF); p = dso::drag_accel(er, ev, AREA[ka], CD[kc], MASS[km], RHO[kh], eg, dr, dv, dc); R gs = std::fabs(grad[0]) + std::fabs(grad[1]) + std::fabs(grad[2]);
  for (int i = 0; i < 3; i++) c.check(std::fabs(p(i) - a[i]) <= 1e-14L * sc, "%s: acceleration[%d] with partials %.17g instead of %.17Lg", lab(), i, p(i), a[i]);
  R one[3]; drag(r, v, rho, (R)AREA[ka] / MASS[km], one); for (int i = 0; i < 3; i++) c.check(std::fabs(dc(i) - one[i]) <= 1e-14L * rho * (AREA[ka] / MASS[km]) * 1e8L + 1e-300L, "%s: partial[%d] to the coefficient %.17g instead of %.17Lg", lab(), i, dc(i), one[i]);
  for (int j = 0; j < 3; j++) { // central differences in extended precision; the density varies linearly
    R h = 1e-3L * SP[ks], x1[3], x2[3], a1[3], a2[3]; for (int i = 0; i < 3; i++) x1[i] = x2[i] = v[i]; x1[j] -= h; x2[j] += h; drag(r, x1, rho, k, a1); drag(r, x2, rho, k, a2); R un = 0; { R u[3]; R w = iers2010::OmegaEarth; u[0] = v[0] + w * r[1]; u[1] = v[1] - w * r[0]; u[2] = v[2]; un = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); }
    if (un < 100 * h) continue; // the force is not smooth where the relative velocity vanishes
    for (int i = 0; i < 3; i++) c.check(std::fabs(dv(i, j) - (a2[i] - a1[i]) / (2 * h)) <= 1e-5L * std::fabs(k) * rho * (un + SP[ks]) + 1e-300L, "%s: partial (%d,%d) to the velocity %.12g instead of %.12Lg", lab(), i, j, dv(i, j), (a2[i] - a1[i]) / (2 * h));
    h = 10; for (int i = 0; i < 3; i++) x1[i] = x2[i] = r[i]; x1[j] -= h; x2[j] += h; drag(x1, v, rho - grad[j] * h, k, a1); drag(x2, v, rho + grad[j] * h, k, a2);
    for (int i = 0; i < 3; i++) c.check(std::fabs(dr(i, j) - (a2[i] - a1[i]) / (2 * h)) <= std::fabs(k) * un * (1e-5L * rho * iers2010::OmegaEarth + 1e-6L * gs * un + 1e-3L * gs * h * iers2010::OmegaEarth) + 1e-300L, "%s gradient %d: partial (%d,%d) to the position %.12g instead of %.12Lg", lab(), kg, i, j, dr(i, j), (a2[i] - a1[i]) / (2 * h)); }
  if (kg < 3) { M3 m = rotm(kg); R q[3] = {0, 0, 0}, u[3] = {0, 0, 0}, b[3], o[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { q[i] += (R)m(i, j) * r[j]; u[i] += (R)m(i, j) * v[j]; } drag(q, u, rho, k, b); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[i] += (R)m(j, i) * b[j];
    mc::dirty_stack(0xFF); p = dso::drag_accel(er, ev, m, AREA[ka], CD[kc], MASS[km], RHO[kh]); for (int i = 0; i < 3; i++) c.check(std::fabs(p(i) - o[i]) <= 1e-14L * sc, "%s, frame %d: acceleration[%d] %.17g instead of %.17Lg", lab(), kg, i, p(i), o[i]); }
  c.evals(3); mc::Hash h; h.q((double)a[0]).q((double)a[1]).q((double)a[2]).q(dr(0, 1)).q(dv(1, 2)); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("radiation", 0, 0) {
  static const double RAD[] = {6.5e6, 4.2e7}, SUN[] = {1.471e11, 1.521e11, 1e8}, AREA[] = {10, 0}, MASS[] = {500, 3}, C[] = {1.3, -0.5, 0};
  int kr = c.choose(ND, "position"), kd = c.choose(2, "radius"), kv = c.choose(ND, "Sun"), ks = c.choose(3, "distance"), ka = c.choose(2, "area"), kc = c.choose(3, "coefficient"), km = c.choose(2, "mass"); V3 er, es; for (int i = 0; i < 3; i++) { er(i) = DIR[kr][i] * RAD[kd]; es(i) = DIR[kv][i] * SUN[ks]; }
  R d[3], D = 0, au = iers2010::AU, one[3]; for (int i = 0; i < 3; i++) { d[i] = (R)er(i) - es(i); D += d[i] * d[i]; } D = std::sqrt(D); R f = 4.56316e-6L * AREA[ka] / MASS[km] * au * au; M3 P; V3 dc; P.setConstant(NAN); dc.setConstant(NAN); mc::dirty_stack(0xFF); V3 a = dso::solar_radiation_acceleration(er, es, AREA[ka], MASS[km], C[kc]), b = dso::solar_radiation_acceleration(er, es, AREA[ka], MASS[km], C[kc], P, dc); c.step(2); c.evals(2); mc::Hash h;
  for (int i = 0; i < 3; i++) { one[i] = f * d[i] / (D * D * D); R t = 1e-14L * f / D / D, e = C[kc] * one[i]; c.check(std::fabs(a(i) - e) <= 2 * t && std::fabs(b(i) - e) <= 2 * t, "satellite %d radius %g Sun %d at %g area %g coefficient %g mass %g: acceleration[%d] %.17g and %.17g instead of %.17Lg", kr, RAD[kd], kv, SUN[ks], AREA[ka], C[kc], MASS[km], i, a(i), b(i), e); c.check(std::fabs(dc(i) - one[i]) <= t, "satellite %d radius %g Sun %d at %g area %g coefficient %g mass %g: partial[%d] to the coefficient %.17g instead of %.17Lg", kr, RAD[kd], kv, SUN[ks], AREA[ka], C[kc], MASS[km], i, dc(i), one[i]);
    for (int j = 0; j < 3; j++) { R g = C[kc] * f * ((i == j) - 3 * d[i] * d[j] / D / D) / (D * D * D); c.check(std::fabs(P(i, j) - g) <= 4 * t / D, "satellite %d radius %g Sun %d at %g area %g coefficient %g mass %g: partial (%d,%d) %.17g instead of %.17Lg", kr, RAD[kd], kv, SUN[ks], AREA[ka], C[kc], MASS[km], i, j, P(i, j), g); } h.q(a(i)).q(P(i, 0)); }
  c.state(h.h); c.outcome(h.h);
}
// Vallado, table 8-4: base altitude, density there, scale height
const double TAB[][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549}, {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523}, {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.0}};
MC_SCENARIO("exponential", 0, 0) {
  // every base altitude, either side of it, and every 1/8 km between
  int b = c.choose(28, "layer"); double lo = TAB[b][0], hi = b < 27 ? TAB[b + 1][0] : 1500; int n = (int)((hi - lo) * 8), k = c.choose(n + 2, "altitude"); double h = k < n ? lo + k / 8.0 : k == n ? std::nextafter(hi, 0) : std::nextafter(lo, 2000); if (h <= 0) c.skip(); double d = dso::air_density_models::exponential::density(h), e = TAB[b][1] * std::exp(-(h - lo) / TAB[b][2]); c.step();
  c.check(std::fabs(d - e) <= 1e-12 * e, "%.17g km: density %.10g instead of %.10g", h, d, e); if (k == n && b < 27) { double u = dso::air_density_models::exponential::density(hi); c.check(std::fabs(d / u - 1) < 0.06 && u < d * 1.06, "at %g km the density jumps from %g to %g", hi, d, u); } c.evals(1); mc::Hash H; H.q(d); c.state(H.h); c.outcome(H.h);
}

// Eclipse models.
struct Sh { R cyl, ell, cone, frac; bool near_[4]; }; // value by model; whether rounding may decide otherwise
Sh shade(const double *r, const double *q) {
  const R Re = iers2010::Re, Rs = iers2010::Rs, au = iers2010::AU, PI = 3.14159265358979323846264338327950288L; Sh o{}; R rr = 0, qq = 0, dot = 0; for (int i = 0; i < 3; i++) { rr += (R)r[i] * r[i]; qq += (R)q[i] * q[i]; dot += (R)r[i] * q[i]; } R rn = std::sqrt(rr), qn = std::sqrt(qq), along = dot / qn, across = 0; { R cx = (R)r[1] * q[2] - (R)r[2] * q[1], cy = (R)r[2] * q[0] - (R)r[0] * q[2], cz = (R)r[0] * q[1] - (R)r[1] * q[0]; across = std::sqrt(cx * cx + cy * cy + cz * cz) / qn; }
  const R tol = 1e-3; // metres; the code subtracts squares of 1e7 m
  o.cyl = along > 0 || across > Re; o.near_[0] = std::fabs(along) < tol ? across < Re + tol : along < 0 && std::fabs(across - Re) < tol;
  { R f = 1 + 1 / 298.257222101L, z[3] = {r[0], r[1], r[2] * f}, w[3] = {q[0], q[1], q[2] * f}, zw = 0, ww = 0; for (int i = 0; i < 3; i++) { zw += z[i] * w[i]; ww += w[i] * w[i]; } R al = zw / std::sqrt(ww), cx = z[1] * w[2] - z[2] * w[1], cy = z[2] * w[0] - z[0] * w[2], cz = z[0] * w[1] - z[1] * w[0], ac = std::sqrt((cx * cx + cy * cy + cz * cz) / ww); o.ell = !(al < 0 && ac < Re); o.near_[1] = (al < tol && std::fabs(ac - Re) < tol) || (std::fabs(al) < tol && ac < Re + tol); }
  { R ap = std::asin((Rs + Re) / au), am = std::asin((Rs - Re) / au), h = -along, pen = std::tan(ap) * (Re / std::sin(ap) + h), umb = std::tan(am) * (Re / std::sin(am) - h); o.cone = h <= 0 || across > pen ? 1 : across <= umb ? 0 : 0.5L; o.near_[2] = std::fabs(h) < tol || (h > -tol && (std::fabs(across - pen) < 1 || std::fabs(across - umb) < 1)); }
  { R d[3], dn = 0, c0 = 0, sx; for (int i = 0; i < 3; i++) { d[i] = (R)q[i] - r[i]; dn += d[i] * d[i]; } dn = std::sqrt(dn); for (int i = 0; i < 3; i++) c0 -= (R)r[i] * d[i]; { R cx = (R)r[1] * d[2] - (R)r[2] * d[1], cy = (R)r[2] * d[0] - (R)r[0] * d[2], cz = (R)r[0] * d[1] - (R)r[1] * d[0]; sx = std::sqrt(cx * cx + cy * cy + cz * cz); } R te = std::asin(Re / rn), ts = std::asin(Rs / dn), b = std::atan2(sx, c0); if (b >= te + ts) o.frac = 1; else if (b <= te - ts) o.frac = 0; else { // area of the lens of two discs
      R x = (b * b + ts * ts - te * te) / (2 * b), y = std::sqrt(std::max((R)0, ts * ts - x * x)); R A = ts * ts * std::atan2(y, x) + te * te * std::atan2(y, b - x) - b * y; o.frac = 1 - A / (PI * ts * ts); } o.near_[3] = false; }
  return o;
}
MC_SCENARIO("eclipse", 0, 0) {
  int ks = c.choose(ND, "Sun"), kd = c.choose(3, "Sun distance"), kr = c.choose(4, "radius"), kt = c.choose(c.thorough() ? 181 : 91, "angle"), kp = c.choose(c.thorough() ? 16 : 8, "around"); const double SD[] = {1.471e11, iers2010::AU, 1.521e11}, RA[] = {6.5e6, 7.71e6, 2.6e7, 4.2164e7};
  double s[3], q[3], r[3], e1[3], e2[3], n = 0; for (int i = 0; i < 3; i++) n += DIR[ks][i] * DIR[ks][i]; n = std::sqrt(n); for (int i = 0; i < 3; i++) { s[i] = DIR[ks][i] / n; q[i] = s[i] * SD[kd]; } int m = std::fabs(s[0]) < 0.5 ? 0 : 1; double d = s[m], l = 0; for (int i = 0; i < 3; i++) { e1[i] = (i == m) - d * s[i]; l += e1[i] * e1[i]; } for (int i = 0; i < 3; i++) e1[i] /= std::sqrt(l); for (int i = 0; i < 3; i++) e2[i] = s[(i + 1) % 3] * e1[(i + 2) % 3] - s[(i + 2) % 3] * e1[(i + 1) % 3];
  // around the edge of the shadow, on the axis, and all the way to the Sun's side
  double te = std::asin(iers2010::Re / RA[kr]), th = kt == 0 ? 0 : kt == 1 ? M_PI : kt == 2 ? M_PI / 2 : kt == 3 ? 1e-9 : kt == 4 ? te : kt < 50 ? te + (kt - 27) * 0.00043 : kt < 91 ? (kt - 49) * M_PI / 42 : te + (kt - 136) * 0.0001173, ph = kp * M_PI * 2 / (c.thorough() ? 16 : 8);
  for (int i = 0; i < 3; i++) r[i] = RA[kr] * (kt == 0 ? -s[i] : kt == 1 ? s[i] : -std::cos(th) * s[i] + std::sin(th) * (std::cos(ph) * e1[i] + std::sin(ph) * e2[i]));
  Sh w = shade(r, q); dso::Vector3 vr, vq; for (int i = 0; i < 3; i++) { vr(i) = r[i]; vq(i) = q[i]; } mc::dirty_stack(0xFF); double cy = utest::montebruck_shadow(vr, vq), ce = utest::montebruck_shadow(V3(r[0], r[1], r[2]), V3(q[0], q[1], q[2])), be = utest::bernese_shadow1(vr, vq), va = utest::vallado_shadow(vr, vq), co = utest::conical_shadow(vr, vq); c.step(5); c.evals(5);
  auto lab = [&] { static char b[200]; snprintf(b, sizeof b, "satellite (%.17g,%.17g,%.17g), Sun (%.17g,%.17g,%.17g)", r[0], r[1], r[2], q[0], q[1], q[2]); return b; };
  if (w.near_[0]) c.check((cy == 0 || cy == 1) && (ce == 0 || ce == 1), "%s: cylindrical shadow %g %g", lab(), cy, ce); else c.check(cy == w.cyl && ce == w.cyl, "%s: cylindrical shadow %g and %g instead of %Lg", lab(), cy, ce, w.cyl);
  if (w.near_[1]) c.check(be == 0 || be == 1, "%s: flattened shadow %g", lab(), be); else c.check(be == w.ell, "%s: flattened shadow %g instead of %Lg", lab(), be, w.ell);
  if (w.near_[2]) c.check(va == 0 || va == 0.5 || va == 1, "%s: cone %g", lab(), va); else c.check(va == w.cone, "%s: cone %g instead of %Lg", lab(), va, w.cone);
  c.check(co >= 0 && co <= 1 && std::fabs(co - w.frac) < 1e-6, "%s: lit fraction %.9g instead of %.9Lg", lab(), co, w.frac);
  // on the Sun's side everything is lit; near the axis behind the Earth nothing is
  if (th > M_PI / 2 + 1e-6) c.check(cy == 1 && ce == 1 && be == 1 && va == 1 && co == 1, "%s: dark on the Sun's side: %g %g %g %g %g", lab(), cy, ce, be, va, co); if (th < 0.9 * te) c.check(cy == 0 && ce == 0 && be == 0 && va == 0 && co == 0, "%s: lit behind the Earth: %g %g %g %g %g", lab(), cy, ce, be, va, co);
  mc::Hash h; h.q(cy).q(be).q(va).q(co); c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("A02", "model_checking",
  "drag: every position x velocity x area x coefficient (negative and zero included) x mass x density (zero included) x density gradient, through the three forms, with partials to position, velocity and coefficient; radiation pressure: every position x Sun position x area x mass x coefficient with partials; exponential atmosphere: every layer edge, its neighbours and every 1/8 km up to 1500 km; five eclipse functions for every Sun direction x distance x satellite radius x angle (the shadow axis, the terminator, steps across the edge of the shadow, a full scan) x position around the axis",
  "8 directions for each vector, 3 radii, 3 speeds; all layers; 91 angles (quick) / 181 x 8 / 16 positions around",
  "partials are compared with central differences in extended precision; the table of the exponential atmosphere is the published one (Vallado, table 8-4)")
