// Two-body motion in extended precision, written from the textbook definitions.
#pragma once
#include <cmath>
#include <vector>
namespace tb {
using R = long double;
const R PI = 3.14159265358979323846264338327950288L;
struct Ele { R a, e, i, O, w, M; };
struct St { R y[6]; };
inline R kepler(R e, R M) { // bisection on [M-e, M+e], then Newton: never fails for e < 1
  R lo = M - e, hi = M + e; for (int k = 0; k < 40; k++) { R m = (lo + hi) / 2; (m - e * std::sin(m) < M ? lo : hi) = m; }
  R E = (lo + hi) / 2; for (int k = 0; k < 6; k++) E -= (E - e * std::sin(E) - M) / (1 - e * std::cos(E)); return E;
}
inline void rot(R O, R i, R w, R m[3][3]) { R cO = std::cos(O), sO = std::sin(O), ci = std::cos(i), si = std::sin(i), cw = std::cos(w), sw = std::sin(w);
  R v[3][3] = {{cO * cw - sO * sw * ci, -cO * sw - sO * cw * ci, sO * si}, {sO * cw + cO * sw * ci, -sO * sw + cO * cw * ci, -cO * si}, {sw * si, cw * si, ci}};
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) m[a][b] = v[a][b]; }
inline void planar(R GM, R a, R e, R E, R p[4]) { R c = std::cos(E), s = std::sin(E), f = std::sqrt((1 - e) * (1 + e)), r = a * (1 - e * c), v = std::sqrt(GM * a) / r;
  p[0] = a * (c - e); p[1] = a * f * s; p[2] = -v * s; p[3] = v * f * c; }
inline St state(R GM, const Ele &q, R dt = 0) { R p[4], m[3][3]; planar(GM, q.a, q.e, kepler(q.e, q.M + std::sqrt(GM / (q.a * q.a * q.a)) * dt), p); rot(q.O, q.i, q.w, m);
  St s; for (int k = 0; k < 3; k++) { s.y[k] = m[k][0] * p[0] + m[k][1] * p[1]; s.y[3 + k] = m[k][0] * p[2] + m[k][1] * p[3]; } return s; }
// angular momentum, inclination, node, eccentricity, perigee, true anomaly
inline St from_kepler(R GM, const double *k) { R h = k[0], e = k[3], p = h * h / GM, r = p / (1 + e * std::cos((R)k[5])), m[3][3]; rot(k[2], k[1], k[4], m);
  R x = r * std::cos((R)k[5]), y = r * std::sin((R)k[5]), u = -GM / h * std::sin((R)k[5]), w = GM / h * (e + std::cos((R)k[5]));
  St s; for (int j = 0; j < 3; j++) { s.y[j] = m[j][0] * x + m[j][1] * y; s.y[3 + j] = m[j][0] * u + m[j][1] * w; } return s; }
inline void cross(const R *a, const R *b, R *c) { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; }
inline R dot(const R *a, const R *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline R norm(const R *a) { return std::sqrt(dot(a, a)); }
inline R energy(R GM, const St &s) { return dot(s.y + 3, s.y + 3) / 2 - GM / norm(s.y); }
// distance of two states, position and velocity in units of the orbit's own size and speed
template <class A> R dist(R GM, R a, const A &x, const St &s) { R d = 0; for (int k = 0; k < 6; k++) { R u = std::fabs((R)x(k) - s.y[k]) / (k < 3 ? a : std::sqrt(GM / a)); if (!(u <= d)) d = u; } return d; }
struct V6 { double d[6]; double operator()(int i) const { return d[i]; } };
inline R dist(R GM, R a, const St &x, const St &s) { R d = 0; for (int k = 0; k < 6; k++) { R u = std::fabs(x.y[k] - s.y[k]) / (k < 3 ? a : std::sqrt(GM / a)); if (!(u <= d)) d = u; } return d; }
inline R wrap(R x) { x = std::fmod(x, 2 * PI); if (x > PI) x -= 2 * PI; if (x < -PI) x += 2 * PI; return x; }
} // namespace tb
