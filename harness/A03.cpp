// A03: analytic Sun and Moon series, ephemeris wrappers, relativistic clock
// terms and the first-order ionospheric correction.
#include "mc.hpp"
#include "planetpos.hpp"
#include "doris_observation_equations.hpp"
#include "iers2010/iersc.hpp"
#include <cmath>
namespace {
using R = long double;
const R PI = 3.14159265358979323846264338327950288L, D = PI / 180, AS = D / 3600, AU = 149597870.7L;
R rev(R x) { return x - std::floor(x); }
R turn(R deg) { return 2 * PI * rev(deg / 360); }
struct V { R x[3]; R n() const { return std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); } };
V ecl(R r, R lon, R lat, R e) { R a = r * std::cos(lon) * std::cos(lat), b = r * std::sin(lon) * std::cos(lat), z = r * std::sin(lat), C = std::cos(e), S = std::sin(e); return {{a, C * b - S * z, S * b + C * z}}; }
// the published series, in extended precision
V sun_mont(R T) { R M = 2 * PI * rev(0.9931267L + 99.9973583L * T), L = 2 * PI * rev(0.7859444L + M / (2 * PI) + (6892 * std::sin(M) + 72 * std::sin(2 * M)) / 1296e3L); return ecl(149.619e6L - 2.499e6L * std::cos(M) - 0.021e6L * std::cos(2 * M), L, 0, 23.43929111L * D); }
V sun_vall(R T) { R M = turn(357.5291092L + 35999.05034L * T), L = turn(280.460L + 36000.771L * T) + (1.914666471L * std::sin(M) + 0.019994643L * std::sin(2 * M)) * D; return ecl(AU * (1.000140612L - 0.016708617L * std::cos(M) - 0.000139589L * std::cos(2 * M)), L, 0, (23.439291L - 0.0130042L * T) * D); }
V sun_curt(R n) { R M = turn(357.529L + 0.98560023L * n), L = turn(280.459L + 0.98564736L * n) + (1.915L * std::sin(M) + 0.0200L * std::sin(2 * M)) * D; return ecl(AU * (1.00014L - 0.01671L * std::cos(M) - 0.000140L * std::cos(2 * M)), L, 0, (23.439L - 3.56e-7L * n) * D); }
V moon_mont(R t) {
  R l = (485868.249036L + t * (1717915923.2178L + t * (31.8792L + t * (0.051635L - t * 0.00024470L)))) * AS, lp = (1287104.793048L + t * (129596581.0481L + t * (-0.5532L + t * (0.000136L - t * 0.00001149L)))) * AS,
    F = (335779.526232L + t * (1739527262.8478L + t * (-12.7512L + t * (-0.001037L + t * 0.00000417L)))) * AS, Dm = (1072260.703692L + t * (1602961601.2090L + t * (-6.3706L + t * (0.006593L - t * 0.00003169L)))) * AS;
  static const struct { R a; int l, lp, F, D; } LON[] = {{22640, 1, 0, 0, 0}, {-4586, 1, 0, 0, -2}, {2370, 0, 0, 0, 2}, {769, 2, 0, 0, 0}, {-668, 0, 1, 0, 0}, {-412, 0, 0, 2, 0}, {-212, 2, 0, 0, -2}, {-206, 1, 1, 0, -2}, {192, 1, 0, 0, 2}, {-165, 0, 1, 0, -2}, {-125, 0, 0, 0, 1}, {-110, 1, 1, 0, 0}, {148, 1, -1, 0, 0}, {-55, 0, 0, 2, -2}},
    LAT[] = {{-526, 0, 0, 1, -2}, {44, 1, 0, 1, -2}, {-31, -1, 0, 1, -2}, {-23, 0, 1, 1, -2}, {11, 0, -1, 1, -2}, {-25, -2, 0, 1, 0}, {21, -1, 0, 1, 0}},
    DST[] = {{-20905, 1, 0, 0, 0}, {-3699, -1, 0, 0, 2}, {-2956, 0, 0, 0, 2}, {-570, 2, 0, 0, 0}, {246, 2, 0, 0, -2}, {-205, 0, 1, 0, -2}, {-171, 1, 0, 0, 2}, {-152, 1, 1, 0, -2}};
  auto arg = [&](auto &q) { return q.l * l + q.lp * lp + q.F * F + q.D * Dm; };
  R dl = 0, b = 0, r = 385000; for (auto &q : LON) dl += q.a * std::sin(arg(q)); for (auto &q : LAT) b += q.a * std::sin(arg(q)); for (auto &q : DST) r += q.a * std::cos(arg(q));
  b += 18520 * std::sin(F + (dl + 412 * std::sin(2 * F) + 541 * std::sin(lp)) * AS);
  return ecl(r, 2 * PI * rev(0.606433L + 1336.851344L * t) + dl * AS, b * AS, 23.43929111L * D);
}
V moon_vall(R t) {
  auto s = [&](R a, R c, R w) { return a * std::sin(turn(c + w * t)); }; auto k = [&](R a, R c, R w) { return a * std::cos(turn(c + w * t)); };
  R L = 218.32L + 481267.8813L * t + s(6.29L, 134.9L, 477198.85L) + s(-1.27L, 259.2L, -413335.38L) + s(0.66L, 235.7L, 890534.23L) + s(0.21L, 269.9L, 954397.70L) + s(-0.19L, 357.5L, 35999.05L) + s(-0.11L, 186.6L, 966404.05L);
  R B = s(5.13L, 93.3L, 483202.03L) + s(0.28L, 228.2L, 960400.87L) + s(-0.28L, 318.3L, 6003.18L) + s(-0.17L, 217.6L, -407332.20L);
  R P = 0.9508L + k(0.0518L, 134.9L, 477198.85L) + k(0.0095L, 259.2L, -413335.38L) + k(0.0078L, 235.7L, 890534.23L) + k(0.0028L, 269.9L, 954397.70L);
  return ecl(6378.1366L / std::sin(P * D), turn(L), B * D, (23.439291L + t * (-0.0130042L + t * (-1.64e-7L + t * 5.04e-7L))) * D);
}
// an independent, better solar theory (Meeus, chapter 25) in the equinox of date
V sun_meeus(R T) { R L0 = 280.46646L + T * (36000.76983L + T * 0.0003032L), M = turn(357.52911L + T * (35999.05029L - T * 0.0001537L)), e = 0.016708634L - T * (0.000042037L + T * 0.0000001267L), C = (1.914602L - T * (0.004817L + T * 0.000014L)) * std::sin(M) + (0.019993L - 0.000101L * T) * std::sin(2 * M) + 0.000289L * std::sin(3 * M), nu = M + C * D; return ecl(AU * 1.000001018L * (1 - e * e) / (1 + e * std::cos(nu)), turn(L0 + C), 0, (23.4392911L - 0.0130042L * T) * D); }
V toJ2000(const V &v, R T) { R ze = (2306.2181L * T + 0.30188L * T * T) * AS, z = (2306.2181L * T + 1.09468L * T * T) * AS, th = (2004.3109L * T - 0.42665L * T * T) * AS; // inverse of P = Rz(-z) Ry(th) Rz(-zeta)
  auto rz = [](V q, R a) { return V{{std::cos(a) * q.x[0] + std::sin(a) * q.x[1], -std::sin(a) * q.x[0] + std::cos(a) * q.x[1], q.x[2]}}; }; auto ry = [](V q, R a) { return V{{std::cos(a) * q.x[0] - std::sin(a) * q.x[2], q.x[1], std::sin(a) * q.x[0] + std::cos(a) * q.x[2]}}; };
  return rz(ry(rz(v, z), -th), ze); }
R ang(const V &a, const V &b) { R c[3] = {a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}, d = 0; for (int i = 0; i < 3; i++) d += a.x[i] * b.x[i]; return std::atan2(std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), d) / D; }
enum { SM, SV, SC, MM, MV,
#ifdef DEBUG
  SD,
#endif
  NF };
const char *NAME[] = {"sun_vector_montenbruck", "sun_vector_vallado", "sun_vector_curtis", "moon_vector_approx", "moon_vector_vallado", "sun_vector_approx21"};
V ref(int f, R T) { return f == SM ? sun_mont(T) : f == SC ? sun_curt(T * 36525) : f == MM ? moon_mont(T) : f == MV ? moon_vall(T) : sun_vall(T); }
int code(int f, double T, double *p) { switch (f) { case SM: return dso::sun_vector_montenbruck(T, p); case SV: return dso::sun_vector_vallado(T, p); case SC: return dso::sun_vector_curtis(T * 36525, p); case MM: return dso::moon_vector_approx(T, p); case MV: return dso::moon_vector_vallado(T, p);
#ifdef DEBUG
  default: return dso::sun_vector_approx21(T, p);
#endif
  } return -1; }
template <class S> int code(int f, const dso::datetime<S> &t, double *p) { switch (f) { case SM: return dso::sun_vector_montenbruck(t, p); case SV: return dso::sun_vector_vallado(t, p); case SC: return dso::sun_vector_curtis(t, p); case MM: return dso::moon_vector_approx(t, p); default: return dso::moon_vector_vallado(t, p); } }
V get(mc::Ctx &c, int f, double T) { double p[3] = {NAN, NAN, NAN}; mc::dirty_stack(0xFF); int e = code(f, T, p); V v = ref(f, T), w = {{p[0], p[1], p[2]}}; R n = v.n(); c.step(); c.evals(); c.check(e == 0, "%s(%.17g): status %d", NAME[f], T, e); for (int i = 0; i < 3; i++) c.check(std::fabs(w.x[i] - v.x[i]) <= 1e-8L * n, "%s(%.17g): component %d is %.9Lf km instead of %.9Lf", NAME[f], T, i, w.x[i], v.x[i]); return w; }
#ifdef DEBUG
#define SFX "-debug"
#else
#define SFX ""
#endif
// every epoch of the century on a regular grid
MC_SCENARIO("epochs" SFX, 0, 0) {
  const int blk = c.choose(1000, "block of 36.525 days"), sub = c.thorough() ? 4096 : 128; mc::Hash h; V last[NF]; R lastT = 0;
  for (int k = 0; k <= sub; k++) { double T = -0.5 + (blk + (double)k / sub) / 1000; V v[NF];
    for (int f = 0; f < NF; f++) { v[f] = get(c, f, T); h.q(v[f].x[0]); R n = v[f].n(); bool sun = f != MM && f != MV;
      c.check(sun ? n > 1.470e8L && n < 1.5225e8L : n > 3.55e5L && n < 4.08e5L, "%s(%.17g): distance %.3Lf km", NAME[f], T, n);
      if (k) { R d = 0, dt = (T - lastT) * 36525; for (int i = 0; i < 3; i++) d += (v[f].x[i] - last[f].x[i]) * (v[f].x[i] - last[f].x[i]); d = std::sqrt(d); R vmax = sun ? 30.4L * 86400 : 1.12L * 86400; c.check(d <= vmax * dt && d >= 0.8L * (sun ? 29.2L : 0.95L) * 86400 * dt, "%s: moves %.3Lf km in %.6Lf days before %.17g", NAME[f], d, dt, T); }
      last[f] = v[f]; }
    lastT = T;
    V me = sun_meeus(T); c.check(ang(v[SV], me) < 0.01L && std::fabs(v[SV].n() - me.n()) < 1.5e4L, "sun_vector_vallado(%.17g): %.6Lf deg and %.1Lf km off a better theory", T, ang(v[SV], me), v[SV].n() - me.n());
    c.check(ang(v[SC], me) < 0.015L && std::fabs(v[SC].n() - me.n()) < 1.5e4L, "sun_vector_curtis(%.17g): %.6Lf deg and %.1Lf km off a better theory", T, ang(v[SC], me), v[SC].n() - me.n());
    V mj = toJ2000(me, T); c.check(ang(v[SM], mj) < 0.01L + 0.33L * std::fabs(T) && std::fabs(v[SM].n() - me.n()) < 3e4L, "sun_vector_montenbruck(%.17g): %.6Lf deg and %.1Lf km off a better theory", T, ang(v[SM], mj), v[SM].n() - me.n());
    V mv = toJ2000(v[MV], T); c.check(ang(v[MM], mv) < 0.55L && std::fabs(v[MM].n() - mv.n()) < 3500, "Moon at %.17g: the two series differ by %.6Lf deg and %.1Lf km", T, ang(v[MM], mv), v[MM].n() - mv.n()); }
  c.state(h.h); c.outcome(h.h);
}
// no call may leave anything behind for the next
MC_SCENARIO("call-sequences" SFX, 0, 0) {
  static const double T[] = {-0.5, -0.123456789, 0, 0.23, 0.4999}; int n = c.thorough() ? 4 : 3; mc::Hash h;
  for (int q = 0; q < n; q++) { int f = c.choose(NF, "series"), k = c.choose(5, "epoch"); V v = get(c, f, T[k]); h.q(v.x[0]).q(v.x[1]); }
  c.state(h.h); c.outcome(h.h);
}
#ifndef DEBUG
template <class S> void dates(mc::Ctx &c, mc::Hash &h, long mjd, R frac) {
  S s((long)(frac * S::max_in_day)); dso::datetime<S> t(dso::modified_julian_day(mjd), s); R T = ((R)mjd - 51544.5L + (R)s.as_underlying_type() / S::max_in_day) / 36525;
  for (int f = 0; f < 5; f++) { double p[3] = {NAN, NAN, NAN}; int e = code(f, t, p); V v = ref(f, T); c.evals(); for (int i = 0; i < 3; i++) c.check(e == 0 && std::fabs(p[i] - v.x[i]) <= 2e-8L * v.n(), "%s at MJD %ld + %.9Lf: component %d is %.9f km instead of %.9Lf (status %d)", NAME[f], mjd, frac, i, p[i], v.x[i], e); h.q(v.x[0]); }
  R et = ((R)mjd - 51544.5L + (R)s.as_underlying_type() / S::max_in_day) * 86400;
  for (int b = 0; b < 2; b++) { double p[3] = {NAN, NAN, NAN}; int e = b ? dso::moon_vector_cspice(t, p) : dso::sun_vector_cspice(t, p); // the stand-in returns body, time and observer
    c.evals(); c.check(e == 0 && p[0] == (b ? 301 : 10) && std::fabs(p[1] - et) < 6e-5L, "%s_vector_cspice at MJD %ld + %.9Lf: body %g at %.6f s instead of %.6Lf", b ? "moon" : "sun", mjd, frac, p[0], p[1], et); }
}
void spk(int target, double et, double *p) { p[0] = target; p[1] = et; p[2] = 0; }
MC_SCENARIO("dates", 0, 0) {
  static const long M[] = {33282, 40587, 51543, 51544, 51545, 58849, 60000, 69806}; static const R F[] = {0, 0.25L, 0.5L, 0.75L, 0.123456789012L, 0.999999999999L}; mc::Hash h; long m = M[c.choose(8, "day")]; R f = F[c.choose(6, "time of day")];
  switch (c.choose(4, "resolution")) { case 0: dates<dso::seconds>(c, h, m, f); break; case 1: dates<dso::milliseconds>(c, h, m, f); break; case 2: dates<dso::microseconds>(c, h, m, f); break; default: dates<dso::nanoseconds>(c, h, m, f); }
  c.step(); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("relativistic-clock", 0, 0) {
  static const double RAD[] = {6.3568e6, 6.378e6, 6.9e6, 7.7e6, 4.2e7}, VEL[] = {0, 465.1, 3.1e3, 7.5e3}, GM[] = {3.986004418e14, 1}, J2[] = {1.0826359e-3, 0, -0.1}, RE[] = {6378136.6, 6.4e6};
  int la = c.choose(c.thorough() ? 73 : 37, "latitude"), lo = c.choose(8, "longitude"), kr = c.choose(5, "radius"), kv = c.choose(4, "speed"), kd = c.choose(6, "velocity direction"); R ph = -90 + la * (180.0L / (c.thorough() ? 72 : 36)), lm = lo * 45; double r[3] = {(double)(RAD[kr] * std::cos(ph * D) * std::cos(lm * D)), (double)(RAD[kr] * std::cos(ph * D) * std::sin(lm * D)), (double)(RAD[kr] * std::sin(ph * D))}, v[3] = {0, 0, 0}; v[kd % 3] = kd < 3 ? VEL[kv] : -VEL[kv]; v[(kd + 1) % 3] = 0.25 * VEL[kv];
  Eigen::Matrix<double, 3, 1> er(r), ev(v); R n2 = 0, v2 = 0; for (int i = 0; i < 3; i++) { n2 += (R)r[i] * r[i]; v2 += (R)v[i] * v[i]; } R n = std::sqrt(n2), C = 299792458; mc::Hash h;
  for (double gm : GM) { R want = (gm / n + v2 / 2) / C; double got = dso::relativistic_clock_correction(er, ev, gm); c.evals(); c.check(std::fabs(got - want) <= 1e-14L * want, "r (%.3f,%.3f,%.3f) v (%g,%g,%g) GM %g: %.17g instead of %.17Lg", r[0], r[1], r[2], v[0], v[1], v[2], gm, got, want); h.q(want);
    for (double j2 : J2) for (double re : RE) { R sp = r[2] / n, w = (gm / n * (1 - (re / n) * (re / n) * j2 * (3 * sp * sp - 1) / 2) + v2 / 2) / C; double g = dso::relativistic_clock_correction(er, ev, gm, j2, re); c.evals(); c.check(std::fabs(g - w) <= 1e-14L * std::fabs(want), "r (%.3f,%.3f,%.3f) v (%g,%g,%g) GM %g J2 %g Re %.1f: %.17g instead of %.17Lg", r[0], r[1], r[2], v[0], v[1], v[2], gm, j2, re, g, w); h.q(w); } }
  c.step(); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("ionosphere", 0, 0) { // phase on both carriers from a range and an electron content: the correction restores the range
  const R f1 = 2036.25L, f2 = 401.25L; static const double CYC[] = {0, 1, -1, 12345.678, 6.5e6, -4.2e7, 1e9}, K[] = {0, 1, 250, -250, 1e5}; double N = CYC[c.choose(7, "range in cycles")], k = K[c.choose(5, "delay")]; R l1 = N - k / f1, l2 = N * (f2 / f1) - k / f2; double a = (double)l1, b = (double)l2; double d = dso::carrier_iono_correction(a, b); c.evals(); c.step(); c.check(std::fabs(a + (R)d - N) <= 1e-15L * (std::fabs(N) + std::fabs(k)), "phases %.17g and %.17g cycles: corrected to %.17Lg instead of %.17g", a, b, a + (R)d, N); mc::Hash h; h.q(d).q(N); c.state(h.h); c.outcome(h.h);
}
#endif
} // namespace
#ifndef DEBUG
extern "C" void (*shim_spkpos)(int, double, double *) = spk;
MC_PROPERTY("A03", "model_checking",
  "every epoch of a regular grid over the century through every series: against the published series in extended precision, a better solar theory, the other lunar series, physical distance bounds, and the previous epoch (continuity); every sequence of calls; dates in every resolution, also through the ephemeris wrappers; clock terms for every position x velocity x constants; the ionospheric correction for every range x electron content",
  "128 000 (quick) / 4 096 000 epochs 1950-2050; call sequences of length 3 / 4; 37 / 73 latitudes x 8 x 5 x 4 x 6",
  "the series of Vallado and Curtis refer to the equinox of date, that of Montenbruck to J2000; accuracies are those stated in the sources (0.01 deg; that of Montenbruck keeps the perihelion fixed, 0.32 deg per century; Moon 0.3 deg and 0.2 deg, added); the ephemeris library is a stand-in")
#endif
