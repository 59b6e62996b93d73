// L01: filter parameters never alias.
#include "mc.hpp"
#include "datetime/dtcalendar.hpp"
#include "filters/filters.hpp"
#include <set>
#include <vector>
using dso::BeaconClockModel;
namespace {
using DT = dso::datetime<dso::nanoseconds>;
DT ref() { return DT(dso::modified_julian_day(59000), dso::nanoseconds(0)); }
DT later(double s) { return DT(dso::modified_julian_day(59000), dso::nanoseconds((long)(s * 1e9))); }

template <int Np, BeaconClockModel B> struct Run {
  using F = dso::EkfFilter<Np, B>;
  static constexpr bool lin = B == BeaconClockModel::Linear;
  static constexpr int per = lin ? 3 : 2;
  static void go(mc::Ctx &c, int nb, int depth) {
    const int n = 6 + Np + per * nb;
    F f(nb, ref());
    const F &cf = f;
    c.check((int)f.num_params() == n, "Np=%d, %d beacons, %s: %d parameters instead of %d", Np, nb, lin ? "linear" : "constant", (int)f.num_params(), n);
    c.check(f.estimates().rows() == n && f.estimates().cols() == 1 && f.P().rows() == n && f.P().cols() == n, "sizes");
    // slots: disjoint, cover
    std::vector<int> own(n, 0);
    auto claim = [&](long i) { c.check(i >= 0 && i < n, "slot %ld outside", i); own[i]++; };
    for (int i = 0; i < 6; i++) claim(i);
    for (int i = 0; i < Np; i++) claim(6 + i);
    if constexpr (Np >= 1) c.check(f.drag_coef_index() == 6, "drag slot %d", (int)f.drag_coef_index());
    for (int b = 0; b < nb; b++) { claim(f.tropo_index(b)); claim(f.rfoff_index(b)); if (lin) claim(f.rfoff_index(b) + 1); }
    for (int i = 0; i < n; i++) c.check(own[i] == 1, "slot %d belongs to %d parameters", i, own[i]);
    // the reference
    Eigen::VectorXd x = Eigen::VectorXd::Zero(n); Eigen::MatrixXd P = Eigen::MatrixXd::Identity(n, n);
    double u = 1;
    auto same = [&](const char *w) {
      c.step();
      for (int i = 0; i < n; i++) {
        c.check(f.estimates()(i, 0) == x(i), "after %s: estimate %d is %g instead of %g", w, i, f.estimates()(i, 0), x(i));
        for (int j = 0; j < n; j++) c.check(f.P()(i, j) == P(i, j), "after %s: covariance (%d,%d) is %g instead of %g", w, i, j, f.P()(i, j), P(i, j));
      }
      if constexpr (Np >= 1) { c.check(cf.drag_coef() == x(6), "after %s: drag coefficient", w); }
      for (int b = 0; b < nb; b++) {
        c.check(cf.tropo_estimate(b) == x(f.tropo_index(b)), "after %s: zenith delay %d", w, b);
        if constexpr (lin) {
          for (double dt : {0.0, 1.0, 4000.5}) c.check(mc::close(cf.rfoff_estimate(b, later(dt)), x(f.rfoff_index(b)) + dt * x(f.rfoff_index(b) + 1), 1e-13), "after %s: frequency offset %d", w, b);
        } else c.check(cf.rfoff_estimate(b) == x(f.rfoff_index(b)), "after %s: frequency offset %d", w, b);
      }
    };
    same("construction");
    mc::Hash h; h.i(Np).i(lin).i(nb);
    for (int d = 0; d < depth; d++) {
      int op = c.choose(10, "operation");
      bool perb = op < 4 || op == 6 || op == 7;
      int b = perb ? c.choose(nb + (op < 4 ? 1 : 0), "beacon") - (op < 4 ? 1 : 0) : 0; // -1: all
      if ((op == 4 || op == 5 || op == 8) && Np < 1) c.skip();
      if (op == 7 && lin) c.skip();
      const bool dflt = op < 4 && b < 0 && c.flip("default argument");
      double v = 100 + u++, w = 1000 + u++;
      h.i(op).i(b);
      auto each = [&](auto fn) { if (b >= 0) fn(b); else for (int i = 0; i < nb; i++) fn(i); };
      switch (op) {
      case 0: if (dflt) f.set_tropo_apriori(v); else f.set_tropo_apriori(v, b); each([&](int i) { x(6 + Np + per * i) = v; x(f.tropo_index(i)) = v; }); same("set_tropo_apriori"); break;
      case 1: if (dflt) f.set_tropo_apriori_sigma(v); else f.set_tropo_apriori_sigma(v, b); each([&](int i) { P(f.tropo_index(i), f.tropo_index(i)) = v; }); same("set_tropo_apriori_sigma"); break;
      case 2:
        if constexpr (lin) { if (dflt) f.set_rfoff_apriori(v, w); else f.set_rfoff_apriori(v, w, b); each([&](int i) { x(f.rfoff_index(i)) = v; x(f.rfoff_index(i) + 1) = w; }); }
        else { if (dflt) f.set_rfoff_apriori(v); else f.set_rfoff_apriori(v, b); each([&](int i) { x(f.rfoff_index(i)) = v; }); }
        same("set_rfoff_apriori"); break;
      case 3:
        if constexpr (lin) { if (dflt) f.set_rfoff_apriori_sigma(v, w); else f.set_rfoff_apriori_sigma(v, w, b); each([&](int i) { int k = f.rfoff_index(i); P(k, k) = v; P(k + 1, k + 1) = w; }); }
        else { if (dflt) f.set_rfoff_apriori_sigma(v); else f.set_rfoff_apriori_sigma(v, b); each([&](int i) { int k = f.rfoff_index(i); P(k, k) = v; }); }
        same("set_rfoff_apriori_sigma"); break;
      case 4: if constexpr (Np >= 1) { f.set_drag_coef_apriori(v); x(6) = v; same("set_drag_coef_apriori"); } break;
      case 5: if constexpr (Np >= 1) { f.set_drag_coef_apriori_sigma(v); P(6, 6) = v; same("set_drag_coef_apriori_sigma"); } break;
      case 6: f.tropo_estimate(b) = v; x(f.tropo_index(b)) = v; same("tropo_estimate()="); break;
      case 7: if constexpr (!lin) { f.rfoff_estimate(b) = v; x(f.rfoff_index(b)) = v; same("rfoff_estimate()="); } break;
      case 8: if constexpr (Np >= 1) { f.drag_coef() = v; x(6) = v; same("drag_coef()="); } break;
      case 9: { // a time update replaces the whole state and maps the covariance
        Eigen::VectorXd xn(n); Eigen::MatrixXd phi = Eigen::MatrixXd::Identity(n, n);
        for (int i = 0; i < n; i++) xn(i) = 7 * i + u++;
        phi(0, n - 1) = 2; phi(n - 1, 0) = -1; phi(3, 3) = 4; // small integers: exact
        f.time_update(later(30), xn, phi);
        Eigen::MatrixXd Q = phi * P * phi.transpose(); P = Q; x = xn; same("time_update"); break; }
      }
      c.state(h.h);
    }
    c.outcome(h.h);
  }
};
MC_SCENARIO("setters", 0, 0) {
  int np = c.choose(4, "parameters"), cl = c.choose(2, "clock model");
  int nb = c.choose(c.thorough() ? 6 : 5, "beacons");
  if (!nb) c.skip();
  int depth = c.thorough() ? 4 : 3;
  switch (np * 2 + cl) {
  case 0: Run<0, BeaconClockModel::None>::go(c, nb, depth); break;
  case 1: Run<0, BeaconClockModel::Linear>::go(c, nb, depth); break;
  case 2: Run<1, BeaconClockModel::None>::go(c, nb, depth); break;
  case 3: Run<1, BeaconClockModel::Linear>::go(c, nb, depth); break;
  case 4: Run<2, BeaconClockModel::None>::go(c, nb, depth); break;
  case 5: Run<2, BeaconClockModel::Linear>::go(c, nb, depth); break;
  case 6: Run<3, BeaconClockModel::None>::go(c, nb, depth); break;
  case 7: Run<3, BeaconClockModel::Linear>::go(c, nb, depth); break;
  }
}
} // namespace
MC_PROPERTY("L01", "model_checking",
  "every configuration (0..3 force-model parameters, constant or linear beacon clocks, beacons) and every sequence of setters (one beacon or all, explicit or default argument), direct writes and time updates on the real filter; after each, every slot of estimate and covariance and every accessor is compared with a reference",
  "1..4 beacons, sequences of length 3 (quick) / 1..5 beacons, length 4",
  "the value handed to a ..._sigma setter is stored as given: the callers in the repository pass variances")
