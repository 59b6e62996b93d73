// X01: variational equations.
#include "mc.hpp"
#include "orbit_integration.hpp"
#include "integrators.hpp"
#include "astrodynamics.hpp"
#include "iers2010/iersc.hpp"
#include "swgen.hpp"
#include <cmath>
#include <memory>
#ifdef NDEBUG
#define SFX "-release"
#else
#define SFX ""
#endif
namespace {
using V3 = Eigen::Matrix<double, 3, 1>; using M3 = Eigen::Matrix<double, 3, 3>; using V48 = Eigen::VectorXd;
using Atm = dso::nrlmsise00::InParams<dso::nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW>;
const int N = 14; const long FIRST = 59574; const double W = iers2010::OmegaEarth, GME = 3.986004418e14, RE = 6378136.3;
void bodies(int target, double et, double *p) { double w = target == 10 ? 1.99e-7 : 2.66e-6, d = target == 10 ? 1.496e8 : 3.844e5; p[0] = d * std::cos(w * et); p[1] = d * 0.917 * std::sin(w * et); p[2] = d * 0.398 * std::sin(w * et); }
Eigen::Quaterniond attitude(int i) { double a = 0.4 * i, k = 1 / std::sqrt(14.); return Eigen::Quaterniond(std::cos(a / 2), std::sin(a / 2) * k, -2 * std::sin(a / 2) * k, 3 * std::sin(a / 2) * k); }
const int NQ = 14;
struct Files { std::string sw, att; };
Files files(mc::Ctx &c) {
  Files f{std::string(c.scratch()) + "/x.csv", std::string(c.scratch()) + "/x.att"}; std::string t = std::string(sw::HEAD) + "\n"; for (int i = 0; i < N; i++) t += sw::join(sw::cols(FIRST + i, i)) + "\n"; mc::write_file(f.sw.c_str(), t);
  t.clear(); for (int i = 0; i < NQ; i++) { int s = 8 * 3600 * i, day = 30 + s / 86400, mon = 12, y = 2021; if (day > 31) { day -= 31; mon = 1; y = 2022; } auto q = attitude(i); char b[300]; snprintf(b, sizeof b, "%04d/%02d/%02d %02d:%02d:%06.3f\t1234567890\t%.17g\t0001\t1234567891\t%.17g\t0002\t1234567892\t%.17g\t0003\t1234567893\t%.17g\t\n", y, mon, day, s % 86400 / 3600, 0, 0., q.w(), q.x(), q.y(), q.z()); t += b; } mc::write_file(f.att.c_str(), t); return f; }
struct World { dso::EopLookUpTable eop{3}; dso::HarmonicCoeffs hc; dso::Nrlmsise00 nrl; std::unique_ptr<Atm> atm; std::unique_ptr<dso::JasonQuaternionHunter> q; std::unique_ptr<dso::IntegrationParameters> p; std::vector<dso::MacroModelComponent> mm; double mass = 500, cd = 2;
  World(const Files &f, int n, int m, bool meters = true) : hc(n) { shim_spkpos = bodies;
    hc.GM() = GME; hc.Re() = RE; hc.normalized() = false; for (int i = 0; i <= n; i++) for (int j = 0; j <= i; j++) { hc.C(i, j) = i == 0 ? 1 : i == 1 ? 0 : (i == 2 && j == 0) ? -1.0826e-3 : 1e-5 * (1 + i - 0.3 * j); if (j) hc.S(i, j) = i == 1 ? 0 : -7e-6 * (i + 0.2 * j); }
    eop.resize(N); for (int i = 0; i < N; i++) { *eop.mjd(i) = FIRST + i + (37 + 32.184) / 86400; *eop.xp(i) = 0.2 + 0.003 * i; *eop.yp(i) = 0.35 - 0.002 * i; *eop.dut(i) = -0.1 + 0.0012 * i; *eop.dx(i) = 0.2; *eop.dy(i) = -0.3; *eop.lod(i) = 1.1e-3; *eop.omega(i) = W; }
    atm.reset(new Atm(f.sw.c_str(), dso::modified_julian_day(FIRST + 5), 0)); if (meters) atm->params_.meters_on(); q.reset(new dso::JasonQuaternionHunter(f.att.c_str())); p.reset(new dso::IntegrationParameters(n, m, eop, hc, "k.tpc"));
    p->qhunt = q.get(); p->SatMass = &mass; p->AtmDataFeed = atm.get(); p->nrlmsise00 = &nrl; p->drag_coef = &cd; }
  void plates(const std::vector<dso::MacroModelComponent> &v) { mm = v; p->macromodel = mm.data(); p->numMacroModelComponents = (int)mm.size(); } };
const double ORB[][6] = {{6778e3, 0, 0, 0, 4.0e3, 6.5e3}, {-4.6e6, 3.1e6, 5.3e6, -5.5e3, -4.6e3, -2.1e3}, {0, -6.63e6, 1e5, 7.7e3, 0, 100}, {2e6, 3e6, -6.9e6, 6e3, -3.5e3, 200}, {4e3, -7e3, 6.9e6, -7.4e3, 1e3, 0}, {7.7e6, 8.1e5, -3e5, 600, 1e3, 7.1e3}};
const int NO = 6;
const double EPO[] = {6 + 0.31, 6.0, 6 + 20. / 86400, 6 + 37. / 86400, 6 + 38. / 86400, 5.75, 7.999, 6 + 69.3 / 86400, 5 + 86399.5 / 86400, 6 + 0.875};
const int NE = 10;
std::vector<dso::MacroModelComponent> panels(int k, const V3 &vb) { auto P = [](double s, double x, double y, double z) { dso::MacroModelComponent m{}; m.m_surf = s; m.m_normal[0] = x; m.m_normal[1] = y; m.m_normal[2] = z; return m; };
  if (k == 0) return {P(9.5, vb(0), vb(1), vb(2))}; if (k == 1) return {P(1.6, 1, 0, 0), P(1.65, -1, 0, 0), P(3, 0, 1, 0), P(3, 0, -1, 0), P(3.1, 0, 0, 1), P(3.1, 0, 0, -1), P(9.8, 0.6, 0, 0.8), P(9.8, -0.6, 0, -0.8)}; if (k == 2) return {}; return {P(4, -vb(0), -vb(1), -vb(2)), P(2, vb(1), -vb(0), 0), P(7, 0.36 * vb(0) + 0.8, 0.48, -0.8)}; }
// attitude at an epoch, from what the file was written with
Eigen::Quaterniond att(double tai) { double x = (tai - 37. / 86400 - (FIRST + 4)) * 3; int i = (int)std::floor(x); double f = x - i; return attitude(0).slerp(0, Eigen::Quaterniond(Eigen::AngleAxisd(0.4 * (i + f), V3(1, -2, 3).normalized()))); }
Eigen::Quaterniond turn(double tai) { double x = (tai - 37. / 86400 - (FIRST + 4)) * 3, a = 0.4 * x, k = 1 / std::sqrt(14.); return Eigen::Quaterniond(std::cos(a / 2), std::sin(a / 2) * k, -2 * std::sin(a / 2) * k, 3 * std::sin(a / 2) * k); }
V3 rel(const double *y) { return V3(y[3] + W * y[1], y[4] - W * y[0], y[5]); }
struct Exp { V3 acc, drag; M3 dr, dv, ddr, ddv; V3 dC; double rho, eps; };
// the parts by themselves, put together the way the equations say
Exp expect(mc::Ctx &c, World &w, const Files &f, double tai, const double *y, int n, int m, bool ap) {
  Exp e; M3 q, pm; double era, lod; if (dso::gcrs2itrs(tai, w.eop, q, era, pm, lod)) c.fail("no transformation at %.9f", tai); V3 r(y), v(y + 3); M3 R; for (int i = 0; i < 3; i++) R.col(i) = dso::rcel2ter(V3::Unit(i), q, era, pm);
  dso::Mat2D<dso::MatrixStorageType::Trapezoid> V(n + 3, m + 3), U(n + 3, m + 3); M3 P; V3 g = dso::grav_potential_accel(R * r, n, m, V, U, w.hc, P); V3 sa, ma, sp; M3 Q; dso::SunMoon(tai, r, w.p->GMSun, w.p->GMMon, sa, ma, sp, Q);
  V3 vr = rel(y); Eigen::Quaterniond at = turn(tai); double area = 0; for (auto &p : w.mm) { double ct = (at.conjugate() * V3(p.m_normal)).dot(vr.normalized()); if (ct > 0) area += p.m_surf * ct; }
  long d = (long)tai; double s = (tai - d) * 86400 - 37; if (s < 0) { d--; s += 86400; } dso::Nrlmsise00 nrl; Atm a(f.sw.c_str(), dso::modified_julian_day(FIRST + 5), 0); a.params_.meters_on(); if (ap) a.params_.use_aparray(); if (a.update_params((int)d, s)) c.fail("no flux");
  auto rho = [&](const V3 &x) { a.set_spatial_from_cartesian(R * x); dso::nrlmsise00::OutParams o; nrl.gtd7d(&a.params_, &o); return o.d[5]; }; e.rho = rho(r); V3 grad; for (int i = 0; i < 3; i++) grad(i) = (rho(r + 2 * V3::Unit(i)) - rho(r - 2 * V3::Unit(i))) / 4;
  double k = -0.5 * area / w.mass * e.rho, vn = vr.norm(), all = 0; for (auto &p : w.mm) all += p.m_surf; e.eps = 1e-10 * 0.5 * all / w.mass * e.rho * vn; // rounding of the projected area
  e.dC = k * vn * vr; e.drag = w.cd * e.dC; e.ddv = w.cd * k * (vn * M3::Identity() + vr * vr.transpose() / vn); M3 X; X << 0, -W, 0, W, 0, 0, 0, 0, 0; e.ddr = -0.5 * w.cd * area / w.mass * vn * vr * grad.transpose() - e.ddv * X;
  e.acc = R.transpose() * g + sa + ma + e.drag; e.dr = R.transpose() * P * R + Q + e.ddr; e.dv = e.ddv; return e; }
V48 call(World &w, double t0, double t, const V48 &y) { w.p->mjd_tai = t0; V48 o = V48::Constant(48, NAN); mc::dirty_stack(0xFF); dso::VariationalEquations(t, y, o, *w.p); return o; }
V48 start(const double *y, int phi) { V48 v = V48::Zero(48); for (int i = 0; i < 6; i++) v(i) = y[i]; for (int k = 0; k < 7; k++) for (int i = 0; i < 6; i++) v(6 + 6 * k + i) = phi == 0 ? (k == i) : phi == 1 ? std::sin(1 + 6 * k + i) * (i < 3 ? 1e3 : 1) : (k == 6 && i == 2); return v; }
void match(mc::Ctx &c, const World &w, const V48 &o, const V48 &y, const Exp &e, const char *lab) {
  for (int i = 0; i < 3; i++) { c.check(o(i) == y(3 + i), "%s: velocity[%d]", lab, i); c.check(std::fabs(o(3 + i) - e.acc(i)) <= 2e-14 * (1 + e.acc.norm()) + 3e-7 * e.drag.norm() + e.eps * w.cd * 1e4, "%s: acceleration[%d] is %.17g instead of %.17g (drag %.3g)", lab, i, o(3 + i), e.acc(i), e.drag(i)); }
  double sr = e.dr.cwiseAbs().maxCoeff(), sd = e.ddr.cwiseAbs().maxCoeff(), sv = e.dv.cwiseAbs().maxCoeff();
  for (int k = 0; k < 7; k++) { V3 a, b; for (int i = 0; i < 3; i++) { a(i) = y(6 + 6 * k + i); b(i) = y(9 + 6 * k + i); } V3 x = e.dr * a + e.dv * b; if (k == 6) x += e.dC; double tol = (3e-14 * sr + 1e-4 * sd) * a.cwiseAbs().sum() + 3e-7 * sv * b.cwiseAbs().sum() + (k == 6 ? 3e-7 * e.dC.norm() + e.eps * 1e4 : 0) + e.eps * w.cd * (a.cwiseAbs().sum() + b.cwiseAbs().sum()) + 1e-30;
    for (int i = 0; i < 3; i++) { c.check(o(6 + 6 * k + i) == b(i), "%s: column %d row %d", lab, k, i); c.check(std::fabs(o(9 + 6 * k + i) - x(i)) <= tol, "%s: column %d row %d is %.12g instead of %.12g (tolerance %.2g)", lab, k, 3 + i, o(9 + 6 * k + i), x(i), tol); } } }
MC_SCENARIO("composition" SFX, 2, 3) { Files f = files(c); static const int DEG[][2] = {{3, 2}, {0, 0}, {2, 0}, {4, 4}}; int d = c.deviate(4, "degree"), ko = c.choose(NO, "orbit"), ke = c.choose(NE, "epoch"), kp = c.deviate(4, "panels"), ph = c.choose(3, "matrix"); bool ap = c.deviate(2, "3-hourly"); int kc = c.deviate(4, "drag coefficient"), km = c.deviate(3, "mass"), kt = c.deviate(3, "reference epoch"); static const double CD[] = {2.1, 0, 1, 30}, MA[] = {500, 1, 2500};
  double tai = FIRST + EPO[ke], ts = kt == 0 ? 0 : kt == 1 ? 345.5 : -1200; double t0 = tai - ts / 86400; tai = t0 + ts / 86400; World w(f, DEG[d][0], DEG[d][1]); w.cd = CD[kc]; w.mass = MA[km]; if (ap) w.atm->params_.use_aparray(); V3 vb = turn(tai) * rel(ORB[ko]).normalized(); w.plates(panels(kp, vb));
  Exp e = expect(c, w, f, tai, ORB[ko], DEG[d][0], DEG[d][1], ap); if (!std::isfinite(e.rho) || e.rho <= 0) c.skip(); V48 y = start(ORB[ko], ph), o = call(w, t0, ts, y); c.step(); char lab[200]; snprintf(lab, sizeof lab, "orbit %d at TAI %.9f (%g s after), degree %d order %d, panels %d, matrix %d, Cd %g, mass %g", ko, tai, ts, DEG[d][0], DEG[d][1], kp, ph, w.cd, w.mass); match(c, w, o, y, e, lab);
  c.evals(48); mc::Hash h; for (int i = 3; i < 48; i += 5) h.q(o(i)); c.state(h.h); c.outcome(h.h); }
// the returned matrix is the derivative of the returned acceleration
MC_SCENARIO("derivative" SFX, 0, 0) { Files f = files(c); int ko = c.choose(NO, "orbit"), ke = c.choose(NE, "epoch"), j = c.choose(7, "direction"); static const double AM[] = {0, 1, 1000}; double am = AM[c.choose(3, "area over mass")]; int d = c.choose(2, "degree"); double tai = FIRST + EPO[ke]; World w(f, d ? 4 : 2, d ? 3 : 0); w.cd = 2; w.mass = am ? 9.5 / am : 1e30; w.plates(panels(0, turn(tai) * rel(ORB[ko]).normalized()));
  V48 y = start(ORB[ko], 0), o = call(w, tai, 0, y); c.step(); V3 num; double st = 0; if (j < 6) { double hh = j < 3 ? 20 : 0.5; V48 a = y, b = y; a(j) += hh; b(j) -= hh; V48 oa = call(w, tai, 0, a), ob = call(w, tai, 0, b); c.step(2); num = (oa - ob).segment<3>(3) / (2 * hh); st = hh; } else { w.cd = 3; V48 oa = call(w, tai, 0, y); w.cd = 1; V48 ob = call(w, tai, 0, y); num = (oa - ob).segment<3>(3) / 2; c.step(2); st = 1; }
  V3 got = o.segment<3>(9 + 6 * j), ds = V3::Zero(); if (am) { w.cd = 0; V48 z = call(w, tai, 0, y); ds = o.segment<3>(9 + 6 * j) - z.segment<3>(9 + 6 * j); c.step(); }
  // rounding of the difference, the Sun's gradient (left out, as documented), and the curvature of the projected area
  double tol = 6e-15 / st + (j < 3 ? 1.2e-13 + 3e-10 * 1.3e-6 : 0) + 2e-3 * ds.norm() + (j < 3 ? 3e-7 * am * 1e-12 : 0); for (int i = 0; i < 3; i++) c.check(std::fabs(got(i) - num(i)) <= tol, "orbit %d TAI %.9f degree %d area/mass %g: derivative of acceleration[%d] by component %d is %.10g, differences give %.10g (tolerance %.2g, drag part %.3g)", ko, tai, d ? 4 : 2, am, i, j, got(i), num(i), tol, ds(i));
  mc::Hash h; h.q(got(0)).q(got(1)).i(j); c.state(h.h); c.outcome(h.h); }
MC_SCENARIO("histories" SFX, 0, 0) { Files f = files(c); World w(f, 3, 2); w.plates(panels(1, V3::UnitX())); int n = c.thorough() ? 4 : 3; mc::Hash h;
  for (int s = 0; s < n; s++) { static const double E[] = {6.31, 6 + 20. / 86400, 6.75, 6.29}; int ke = c.choose(4, "epoch"), ko = c.choose(c.thorough() ? 2 : 3, "orbit"); V48 y = start(ORB[ko], 1), o = call(w, FIRST + 6.3, (E[ke] - 6.3) * 86400, y); World x(f, 3, 2); x.plates(panels(1, V3::UnitX())); V48 e = call(x, FIRST + 6.3, (E[ke] - 6.3) * 86400, y); c.step(2);
    for (int i = 0; i < 48; i++) c.check(std::fabs(o(i) - e(i)) <= 1e-13 * std::fabs(e(i)) + 1e-22 || (std::isnan(o(i)) && std::isnan(e(i))), "call %d (epoch %d, orbit %d): element %d is %.17g, from fresh parameters %.17g", s, ke, ko, i, o(i), e(i)); h.i(ke).i(ko); }
  c.state(h.h); c.outcome(h.h); }
#ifdef NDEBUG
// without attitude, orientation or flux there is no derivative
MC_SCENARIO("no-data" SFX, 0, 0) { Files f = files(c); World w(f, 2, 2); w.plates(panels(1, V3::UnitX())); static const double E[] = {3.5, 9.9, 15.5, -0.5, 30, 6.5}; int n = 2; mc::Hash h; for (int s = 0; s < n; s++) { int k = c.choose(6, "epoch"); V48 y = start(ORB[0], 0), o = call(w, FIRST + E[k], 0, y); c.step(); bool fin = true; for (int i = 0; i < 48; i++) fin = fin && std::isfinite(o(i)); c.check(fin == (k == 5) || (k == 5 && s), "epoch %d: %s result without data", k, fin ? "finite" : "no"); h.i(k); } c.state(h.h); c.outcome(h.h); }
#else
// the matrices carried along are the derivatives of the final state
MC_SCENARIO("transition", 0, 0) { Files f = files(c); int ko = c.choose(c.thorough() ? NO : 3, "orbit"), j = c.choose(7, "direction"); double T = c.choose(2, "span") ? 900 : -200; World w(f, 4, 4); w.cd = 0; w.mass = 5000; w.plates(panels(j == 6 ? 1 : 2, V3::UnitX())); double t0 = FIRST + 6.31;
  auto run = [&](const V48 &y) { w.p->mjd_tai = t0; dso::SGOde s(dso::VariationalEquations, 48, j == 6 ? 1e-8 : 1e-12, j == 6 ? 1e-8 : 1e-12, w.p.get()); double t = 0; V48 o = V48::Zero(48), y0 = y; int rc = s.de(t, T, y0, o); c.step(); c.check(s.flag() == 2 && std::fabs(t - T) < 1e-9, "integration stopped at %.6f with %d/%d", t, rc, s.flag()); return o; };
  V48 y = start(ORB[ko], 0), o = run(y), a = y, b = y; double hh = j < 3 ? 30 : j < 6 ? 0.03 : 1; V48 oa, ob; if (j < 6) { a(j) += hh; b(j) -= hh; oa = run(a); ob = run(b); } else { w.cd = 0.01; oa = run(y); w.cd = -0.01; ob = run(y); hh = 0.01; }
  V48 num = (oa - ob).segment<6>(0) / (2 * hh); double sc = 0, sv = 0; for (int i = 0; i < 3; i++) { sc = std::max(sc, std::fabs(num(i))); sv = std::max(sv, std::fabs(num(i + 3))); }
  for (int i = 0; i < 6; i++) { double tol = (j == 6 ? 2e-3 : 2e-6) * (i < 3 ? sc : sv) + 1e-5 / hh / (i < 3 ? 1 : 1e3); c.check(std::fabs(o(6 + 6 * j + i) - num(i)) <= tol, "orbit %d over %g s: derivative of final component %d by %s %d is %.10g, differences give %.10g", ko, T, i, j < 6 ? "initial component" : "drag coefficient", j, o(6 + 6 * j + i), num(i)); }
  mc::Hash h; h.q(o(6 + 6 * j)).i(ko); c.state(h.h); c.outcome(h.h); }
#endif
} // namespace
#ifndef NDEBUG
extern "C" { void (*shim_spkpos)(int, double, double *) = nullptr; }
MC_PROPERTY("X01", "model_checking",
  "every orbit of a lattice at every epoch (day boundaries in TAI and in UTC, year end) with up to the stated deviations in gravity degree, panels, drag coefficient, mass, geomagnetic input and reference epoch, for three transition matrices, compared with the composition of the parts; differentiation of the acceleration in every direction for three area-to-mass ratios; histories of calls on one parameter set against fresh ones; integrations in both directions whose final transition matrix is differentiated; everything also with assertions compiled out, and epochs without data there",
  "6 orbits x 10 epochs x 3 matrices x 2 deviations (quick) / 3; histories of 3 / 4 calls; 3 / 6 orbits integrated",
  "the Sun's gradient and the derivative of the projected area are left out of the matrix, as documented; the ephemeris and precession-nutation are stand-ins; UTC second within a leap second day is not resolved")
#endif
