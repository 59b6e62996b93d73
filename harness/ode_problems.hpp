// problems with known solutions, for both copies of the integrators
#pragma once
#ifdef VAR_COPY
#include "var/ode_solvers/sgode.hpp"
#include <cstring>
#define PARAMS nullptr
#define ODE_LAST void *
#define ODE_NX
#else
#include "integrators.hpp"
#define ODE_LAST dso::IntegrationParameters &
#define ODE_NX noexcept
namespace odep { alignas(64) static unsigned char parbuf[sizeof(dso::IntegrationParameters)]; }
#define PARAMS reinterpret_cast<dso::IntegrationParameters *>(odep::parbuf)
#endif
#ifndef K_ERR
#define K_ERR 20.0
#endif
namespace odep {
using V = Eigen::VectorXd; using R = Eigen::Ref<Eigen::VectorXd>;
static long nev = 0;
// y' = -y
static void f_decay(double, const V &y, R d, ODE_LAST) ODE_NX { ++nev; d(0) = -y(0); }
static V x_decay(double t) { V v(1); v << std::exp(-t); return v; }
// quadrature
static void f_quad(double t, const V &, R d, ODE_LAST) ODE_NX { ++nev; d(0) = std::cos(t); d(1) = 3 * t * t; }
static V x_quad(double t) { V v(2); v << std::sin(t), t * t * t; return v; }
// harmonic oscillator, frequency 2
static void f_osc(double, const V &y, R d, ODE_LAST) ODE_NX { ++nev; d(0) = y(1); d(1) = -4 * y(0); }
static V x_osc(double t) { V v(2); v << std::cos(2 * t), -2 * std::sin(2 * t); return v; }
// two-body orbit, e = 0.3, period 2 pi
static void f_kep(double, const V &y, R d, ODE_LAST) ODE_NX { ++nev; double r = std::hypot(y(0), y(1)), k = 1 / (r * r * r); d(0) = y(2); d(1) = y(3); d(2) = -k * y(0); d(3) = -k * y(1); }
static V x_kep(double t) {
  const double e = 0.3; double E = t; for (int i = 0; i < 60; i++) { double s = (E - e * std::sin(E) - t) / (1 - e * std::cos(E)); E -= s; if (std::fabs(s) < 1e-16 * (1 + std::fabs(E))) break; }
  double c = std::cos(E), s = std::sin(E), b = std::sqrt(1 - e * e), n = 1 / (1 - e * c); V v(4); v << c - e, b * s, -s * n, b * c * n; return v;
}
// nonlinear, explicit time: y' = -2 t y^2, y = 1/(1+t^2)
static void f_rat(double t, const V &y, R d, ODE_LAST) ODE_NX { ++nev; d(0) = -2 * t * y(0) * y(0); }
static V x_rat(double t) { V v(1); v << 1 / (1 + t * t); return v; }
// seven uncoupled oscillators with different frequencies: the error of every component counts
static void f_sev(double t, const V &y, R d, ODE_LAST) ODE_NX { ++nev; for (int i = 0; i < 7; i++) d(i) = (i + 1) * 0.7 * std::cos((i + 1) * 0.7 * t) - 0.2 * (y(i) - std::sin((i + 1) * 0.7 * t)); }
static V x_sev(double t) { V v(7); for (int i = 0; i < 7; i++) v(i) = std::sin((i + 1) * 0.7 * t); return v; }

// growth of an error made at t0 until t1, and the size of the solution between them
struct Problem { const char *name; int n; dso::ODEfun f; V (*exact)(double); double (*scale)(double); double (*amp)(double, double); double cond; bool longok; };
static double s_one(double) { return 1; }
static double s_decay(double t) { return std::exp(-t); }
static double s_quad(double t) { return 1 + std::fabs(t * t * t); }
static double a_one(double, double) { return 1; }
static double a_decay(double a, double b) { return std::exp(a - b); }
static double a_sev(double a, double b) { return std::exp(0.2 * (a - b)); }
static double a_rat(double a, double b) { double q = (1 + a * a) / (1 + b * b); return q * q; }
static double a_kep(double a, double b) { return 1 + 0.3 * std::fabs(a - b); }
static const Problem PROBLEMS[] = {
  {"decay", 1, f_decay, x_decay, s_decay, a_decay, 1, false}, {"quadrature", 2, f_quad, x_quad, s_quad, a_one, 1, false},
  {"oscillator", 2, f_osc, x_osc, s_one, a_one, 1, true}, {"two-body", 4, f_kep, x_kep, s_one, a_kep, 1, true},
  {"rational", 1, f_rat, x_rat, s_one, a_rat, 1, false}, {"seven", 7, f_sev, x_sev, s_one, a_sev, 1, true}};
// bound on the error after a call from t0 to t1 that began with error at most e
static double grow(const Problem &p, double e, double t0, double t1, double tol) {
  double len = std::fabs(t1 - t0), A = std::max(p.amp(t0, t1), 1e-300), mx = std::max(std::max(A, 1.0), (t0 < 0) != (t1 < 0) ? p.amp(t0, 0) * 1 : 1.0);
  double mid = (t0 < 0) != (t1 < 0) ? std::max(p.amp(0, t1), 1.0) : 1.0;
  double sc = std::max(std::max(p.scale(t0), p.scale(t1)), 1.0);
  return A * e + K_ERR * (tol + 2e-15 * (1 + std::fabs(t0) + len)) * (len + 1) * sc * std::max(std::max(A, mid), 1.0);
}
static const int NPROB = 6;
#define FN(p) (p).f
} // namespace odep
