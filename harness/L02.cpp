// L02: sequential updates equal the batch solution, in any order.
#include "mc.hpp"
#include "datetime/dtcalendar.hpp"
#include "filters/filters.hpp"
#include <algorithm>
#include <vector>
namespace {
using DT = dso::datetime<dso::nanoseconds>;
using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LV = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
DT at(long s) { return DT(dso::modified_julian_day(59000), dso::nanoseconds(s * 1000000000L)); }
struct Obs { int row; double z, sigma; };
const int NROW = 7;
Eigen::VectorXd row(int r, int n) {
  Eigen::VectorXd h = Eigen::VectorXd::Zero(n);
  switch (r) {
  case 0: h(0) = 1; break;
  case 1: h(n - 1) = 2; break;
  case 2: for (int i = 0; i < n; i++) h(i) = 1; break;
  case 3: h(0) = 1; h(n - 1) = -1; break;
  case 4: for (int i = 0; i < n; i++) h(i) = (i % 2 ? -1 : 1) * (1 + 0.5 * i); break;
  case 5: break; // an observation that sees nothing
  case 6: h(n / 2) = 1e-3; break;
  }
  return h;
}
Eigen::MatrixXd prior(int k, int n) {
  Eigen::MatrixXd P = Eigen::MatrixXd::Identity(n, n);
  if (k == 1) for (int i = 0; i < n; i++) P(i, i) = 1e4 / (1 + i);
  if (k == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P(i, j) = (i == j ? 4 : 1) * std::pow(0.5, std::abs(i - j));
  return P;
}
const double SIG[] = {1e0, 1e-2, 30e0};
const double ZED[] = {1e0, -3.5e0, 250e0};

// the batch solution, in extended precision
struct Ref {
  LM P; LV x;
  void batch(const std::vector<Obs> &v) {
    int n = x.size(); LM N = P.inverse(); LV b = N * x;
    for (auto &o : v) { LV h = row(o.row, n).cast<long double>(); long double w = 1.0L / ((long double)o.sigma * o.sigma); N += w * h * h.transpose(); b += w * h * (long double)o.z; }
    P = N.inverse(); x = P * b;
  }
};
void same(mc::Ctx &c, const Eigen::VectorXd &x, const Eigen::MatrixXd &P, const Ref &r, double P0, const char *what) {
  int n = r.x.size();
  double sx = 1; for (int i = 0; i < n; i++) sx = std::max(sx, (double)std::fabs((double)r.x(i)));
  for (int i = 0; i < n; i++) {
    c.check(std::fabs(x(i) - (double)r.x(i)) <= 1e-7 * sx, "%s: estimate %d is %.12g instead of %.12g", what, i, x(i), (double)r.x(i));
    for (int j = 0; j < n; j++) {
      double tol = 1e-8 * std::sqrt(std::fabs((double)r.P(i, i) * (double)r.P(j, j))) + 1e-13 * P0;
      c.check(std::fabs(P(i, j) - (double)r.P(i, j)) <= tol, "%s: covariance (%d,%d) is %.12g instead of %.12g", what, i, j, P(i, j), (double)r.P(i, j));
      c.check(std::fabs(P(i, j) - P(j, i)) <= 1e-12 * P0 + 1e-9 * std::sqrt(std::fabs(P(i, i) * P(j, j))), "%s: covariance not symmetric at (%d,%d)", what, i, j);
    }
  }
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(0.5 * (P + P.transpose()), Eigen::EigenvaluesOnly);
  c.check(es.eigenvalues()(0) >= -1e-12 * P0, "%s: covariance has eigenvalue %g", what, es.eigenvalues()(0));
}

// every ordered sequence of observations, all in one phase
MC_SCENARIO("orders", 0, 0) {
  static const int N[] = {1, 2, 3};
  int n = N[c.choose(3, "parameters")], pk = c.choose(3, "prior");
  Eigen::VectorXd x0(n); for (int i = 0; i < n; i++) x0(i) = c.flip("x0") ? 0 : 1 - 2 * i;
  Eigen::MatrixXd P0 = prior(pk, n);
  dso::ExtendedKalmanFilter<dso::nanoseconds> f(at(0), x0, P0);
  Ref r{P0.cast<long double>(), x0.cast<long double>()}, r0 = r;
  std::vector<Obs> all; int len = c.thorough() ? 4 : 3;
  for (int k = 0; k < len; k++) {
    Obs o{c.choose(NROW, "row"), 0, 0};
    int zs = c.choose(k < 2 ? 3 : 2, "value"); o.z = ZED[zs]; o.sigma = SIG[(zs + k) % 3]; // values and sigmas cycle together
    Eigen::VectorXd H = row(o.row, n);
    f.observation_update(o.z, H.dot(f.x), o.sigma, H);
    all.push_back(o); c.step();
    r = r0; r.batch(all);
    same(c, f.x, f.P, r, P0.cwiseAbs().maxCoeff(), "after an observation");
    c.check(f.time() == at(0), "an observation moved the epoch");
  }
  mc::Hash h; for (int i = 0; i < n; i++) h.q(f.x(i)).q(f.P(i, i)); c.state(h.h); c.outcome(h.h);
}
// every permutation of a fixed multiset gives the same answer
MC_SCENARIO("permutations", 0, 0) {
  int n = 2 + c.choose(2, "parameters"), pk = c.choose(3, "prior"), m = c.thorough() ? 6 : 5;
  std::vector<Obs> v; for (int k = 0; k < m; k++) v.push_back(Obs{k % NROW, ZED[k % 3] + k, SIG[(k * 2) % 3]});
  Eigen::VectorXd x0 = Eigen::VectorXd::Ones(n); Eigen::MatrixXd P0 = prior(pk, n);
  dso::ExtendedKalmanFilter<dso::nanoseconds> f(at(0), x0, P0);
  Ref r{P0.cast<long double>(), x0.cast<long double>()}; r.batch(v);
  std::vector<Obs> rest = v;
  while (!rest.empty()) { int i = c.choose((int)rest.size(), "next"); Obs o = rest[i]; rest.erase(rest.begin() + i); Eigen::VectorXd H = row(o.row, n); f.observation_update(o.z, H.dot(f.x), o.sigma, H); c.step(); }
  same(c, f.x, f.P, r, P0.cwiseAbs().maxCoeff(), "after all observations");
  mc::Hash h; h.i(n).i(pk).q(f.x(0)); c.state(h.h); c.outcome(h.h);
}
// time updates (with and without noise, contracting, growing, singular) among observations
Eigen::MatrixXd trans(int k, int n) {
  Eigen::MatrixXd p = Eigen::MatrixXd::Identity(n, n);
  if (k == 1) for (int i = 0; i + 1 < n; i++) p(i, i + 1) = 0.5;
  if (k == 2) { for (int i = 0; i < n; i++) p(i, i) = 0.25; p(n - 1, 0) = 3; }
  if (k == 3) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p(i, j) = i == j ? 0.8 : 0.1 * (i - 2 * j); // not symmetric
  return p;
}
MC_SCENARIO("phases", 0, 0) {
  int n = 2 + c.choose(2, "parameters"), pk = c.choose(3, "prior");
  Eigen::VectorXd x0 = Eigen::VectorXd::Ones(n); Eigen::MatrixXd P0 = prior(pk, n);
  dso::ExtendedKalmanFilter<dso::nanoseconds> f(at(0), x0, P0);
  Ref r{P0.cast<long double>(), x0.cast<long double>()}; mc::Hash h; h.i(n).i(pk);
  int len = c.thorough() ? 5 : 4; double p0 = P0.cwiseAbs().maxCoeff(); long tm = 0;
  for (int k = 0; k < len; k++) {
    int a = c.choose(8, "event");
    if (a < 4) {
      static const int RW[] = {0, 2, 3, 4};
      Obs o{RW[a], ZED[k % 3], SIG[k % 2]}; Eigen::VectorXd H = row(o.row, n);
      // a linearised prediction that is not H.x: the innovation is what the caller says
      double g = H.dot(f.x) + (k == 1 ? 0.5 : 0);
      Obs q = o; q.z = o.z - (k == 1 ? 0.5 : 0);
      f.observation_update(o.z, g, o.sigma, H); r.batch({q}); h.i(a);
    } else {
      Eigen::MatrixXd phi = trans(a - 4, n); Eigen::VectorXd xn = phi * f.x; for (int i = 0; i < n; i++) xn(i) += i;
      int q = c.choose(2, "noise"); Eigen::MatrixXd Q = q ? (Eigen::MatrixXd)(prior(2, n) * 0.1) : (Eigen::MatrixXd)Eigen::MatrixXd::Zero(n, n); tm += 10;
      if (q) f.time_update(at(tm), xn, phi, Q); else f.time_update(at(tm), xn, phi);
      r.x = xn.cast<long double>(); LM L = phi.cast<long double>(); r.P = LM(L * r.P * L.transpose()) + Q.cast<long double>(); p0 = std::max(p0, (double)r.P.cwiseAbs().maxCoeff()); h.i(a).i(q);
      c.check(f.time() == at(tm), "epoch after a time update"); c.check((f.x.array() == xn.array()).all() && (f.state().array() == xn.array()).all(), "state after a time update");
    }
    c.step(); same(c, f.x, f.P, r, p0, a < 4 ? "after an observation" : "after a time update"); c.state(h.h);
  }
  c.outcome(h.h);
}
// the same through the filter front-end
template <int Np, dso::BeaconClockModel B> void front(mc::Ctx &c) {
  int nb = 1 + c.choose(2, "beacons"); dso::EkfFilter<Np, B> f(nb, at(0));
  int n = (int)f.num_params(); Ref r{LM::Identity(n, n), LV::Zero(n)};
  f.set_tropo_apriori(0.2); f.set_tropo_apriori_sigma(0.25); for (int b = 0; b < nb; b++) { int i = (int)f.tropo_index(b); r.x(i) = 0.2; r.P(i, i) = 0.25; }
  int len = c.thorough() ? 4 : 3; mc::Hash h; h.i(Np).i((int)B).i(nb);
  for (int k = 0; k < len; k++) {
    int a = c.choose(5, "event"); h.i(a);
    if (a < 4) { int b = a % nb; Eigen::VectorXd H = Eigen::VectorXd::Zero(n); if (a < 2) { H(0) = 1; H(3) = -0.5; } H((int)f.tropo_index(b)) = 2; H((int)f.rfoff_index(b)) = a == 3 ? -1 : 0.3; if (Np) H(6) = 0.1;
      double z = ZED[k % 3], s = SIG[a % 2]; Eigen::VectorXd x = f.estimates(); f.observation_update(z, H.dot(x), s, H);
      LM N = r.P.inverse(); LV bb = N * r.x; LV hh = H.cast<long double>(); long double w = 1.0L / ((long double)s * s); N += w * hh * hh.transpose(); bb += w * hh * (long double)z; r.P = N.inverse(); r.x = r.P * bb;
    } else { Eigen::MatrixXd phi = Eigen::MatrixXd::Identity(n, n); phi(0, 3) = 10; phi(1, 4) = 10; phi(2, 5) = 10; Eigen::VectorXd xn = phi * Eigen::VectorXd(f.estimates()); f.time_update(at(10 * k), xn, phi); LM L = phi.cast<long double>(); r.P = LM(L * r.P * L.transpose()); r.x = xn.cast<long double>(); }
    c.step(); same(c, f.estimates(), f.P(), r, (double)r.P.cwiseAbs().maxCoeff() + 1, "front-end"); c.state(h.h);
  }
  c.outcome(h.h);
}
MC_SCENARIO("front-end", 0, 0) {
  switch (c.choose(4, "model")) {
  case 0: front<0, dso::BeaconClockModel::None>(c); break;
  case 1: front<1, dso::BeaconClockModel::None>(c); break;
  case 2: front<1, dso::BeaconClockModel::Linear>(c); break;
  case 3: front<2, dso::BeaconClockModel::Linear>(c); break;
  }
}
} // namespace
MC_PROPERTY("L02", "model_checking",
  "every ordered sequence of observations (design rows, values, sigmas) from three priors, every permutation of a fixed multiset, every sequence of observations and time updates (four transitions, with and without noise), directly and through the filter front-end, on the real code; after every event estimate and covariance are compared with the batch solution in extended precision",
  "1..3 parameters, sequences of 3..4 events and permutations of 5 (quick) / 4..5 and 6; front-end with 8..14 parameters")
