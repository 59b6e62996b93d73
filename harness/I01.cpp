// I01: the multistep integrator, driven in every way.
#include "mc.hpp"
#include <cmath>
#include <memory>
#include <vector>
#include "ode_problems.hpp"
using namespace odep;
static FILE *calf() { static FILE *f = getenv("I01_CAL") ? fopen(getenv("I01_CAL"), "a") : nullptr; if (f) setvbuf(f, nullptr, _IONBF, 0); return f; }
namespace {

// one integrator living in memory whose former contents are known
struct Box {
  alignas(64) unsigned char mem[sizeof(dso::SGOde)];
  dso::SGOde *p{nullptr};
  Box(const Problem &pr, double rel, double abs_, unsigned char dirt) {
    std::memset(mem, dirt, sizeof mem);
    p = new (mem) dso::SGOde(FN(pr), pr.n, rel, abs_, PARAMS);
  }
  ~Box() { p->~SGOde(); }
};

// the drive: what the user holds between calls
struct User { double t; Eigen::VectorXd y; };

enum { SMALL, MID, LONG, TINY, BACK, BACKLONG, TOZERO, EXACTSTOP, RESTART, NACT };
const char *NAME[NACT] = {"small", "mid", "long", "tiny", "back", "backlong", "to-zero", "exact-stop", "restart"};

double target(int a, double t) {
  switch (a) {
  case SMALL: return t + 0.11;
  case MID: return t + 0.7;
  case LONG: return t + 3.3;
  case TINY: return t + 1e-9;
  case BACK: return t - 0.23;
  case BACKLONG: return t - 2.9;
  case TOZERO: return 0e0;
  case EXACTSTOP: return t + 0.37;
  default: return t + 0.5;
  }
}
struct Log { double t; Eigen::VectorXd y; int flag, rc; };

// perform one action; every returned state is compared with the exact one
Log act(mc::Ctx &c, Box &b, User &u, const Problem &pr, int a, double tol, double &acc, const char *who) {
  dso::SGOde &s = *b.p;
  double tout = target(a, u.t), t = u.t;
  Log l;
  Eigen::VectorXd out = Eigen::VectorXd::Constant(pr.n, 7e77), y0 = u.y;
  if (a == RESTART) s.iflag = 1; // a fresh start from the state the user holds
  if (a == EXACTSTOP) s.iflag = -std::abs(s.iflag);
  if (tout == t) { // coincident epochs: documented status, nothing moves; restart afterwards
    int rc = s.de(t, tout, y0, out);
    c.check(rc != 0 && s.flag() == 6 && t == u.t, "%s: coincident epochs gave status %d flag %d", who, rc, s.flag());
    s.iflag = 1;
    return Log{t, u.y, 6, rc};
  }
  int rc = 0, calls = 0;
  while (true) { // resume after work-limit returns
    rc = s.de(t, tout, y0, out);
    int f = s.flag();
    c.check((rc == 0) == (f == 2), "%s %s: status %d but flag %d", who, NAME[a], rc, f);
    if (rc == 0) break;
    c.check(std::abs(f) == 4 || std::abs(f) == 5, "%s %s from %.9g to %.9g: flag %d", who, NAME[a], u.t, tout, f);
    c.check((t - u.t) * (tout - u.t) > 0 && std::fabs(t - u.t) <= std::fabs(tout - u.t) * 12, "%s %s: left at %.17g on the way from %.17g to %.17g", who, NAME[a], t, u.t, tout);
    if (!(std::fabs(t - u.t) < std::fabs(tout - u.t))) break;
    c.check(++calls < 200, "%s %s: no progress", who, NAME[a]);
    y0 = out;
  }
  c.step();
  c.check(t == tout, "%s %s: asked for %.17g, left at %.17g", who, NAME[a], tout, t);
  acc = grow(pr, acc, u.t, tout, tol);
  Eigen::VectorXd e = pr.exact(tout);
  for (int i = 0; i < pr.n; i++) {
    double lim = acc;
    c.check(std::isfinite(out(i)) && std::fabs(out(i) - e(i)) <= lim, "%s %s: %s component %d at t=%.12g is %.15g instead of %.15g (tolerance %.1e, error %.1e, limit %.1e)", who, NAME[a], pr.name, i, tout, out(i), e(i), tol, out(i) - e(i), lim);
    if (calf()) { double r = std::fabs(out(i) - e(i)) / lim; static double mx[16]; int k = &pr - PROBLEMS; if (r > mx[k]) { mx[k] = r; fprintf(calf(), "CAL %s tol %.0e %.3f\n", pr.name, tol, r); } }
  }
  u.t = t; u.y = out;
  return Log{t, out, s.flag(), rc};
}

// ---- every sequence of actions on one integrator; twice, in differently dirty memory
MC_SCENARIO("drive", 0, 0) {
  const Problem &pr = PROBLEMS[c.choose(NPROB, "problem")];
  static const double TOLS[] = {1e-6, 1e-10, 1e-12};
  double tol = TOLS[c.thorough() ? c.choose(3, "tolerance") : 2 * c.choose(2, "tolerance")];
  int depth = c.thorough() ? 5 : 4;
  User ua{0e0, pr.exact(0e0)}, ub = ua;
  Box a(pr, tol, tol, 0x00), b(pr, tol, tol, 0xFF);
  double acc = 0, acc2 = 0;
  mc::Hash h; h.s(pr.name).d(tol);
  for (int i = 0; i < depth; i++) {
    static const int LAST[] = {MID, LONG, BACK, TOZERO, RESTART};
    int x = i + 1 == depth ? c.pick(LAST, "action") : c.choose(NACT, "action");
    Log la = act(c, a, ua, pr, x, tol, acc, "first");
    mc::dirty_stack(0xA5 ^ i);
    Log lb = act(c, b, ub, pr, x, tol, acc2, "second");
    mc::dirty_stack(0x33);
    c.check(la.t == lb.t && la.flag == lb.flag && la.rc == lb.rc && (la.y.array() == lb.y.array()).all(), "%s: two identical runs differ at t=%.17g", NAME[x], la.t);
    h.d(la.t).i(la.flag); for (int k = 0; k < pr.n; k++) h.q(la.y(k));
    c.state(h.h);
  }
  c.outcome(h.h);
}

// ---- two integrators (different problems) interleaved in every order: each as if alone
MC_SCENARIO("interleave", 0, 0) {
  const Problem &p1 = PROBLEMS[c.choose(NPROB, "problem 1")], &p2 = PROBLEMS[c.thorough() ? c.choose(NPROB, "problem 2") : 3 * c.choose(2, "problem 2")];
  static const int ACT[] = {MID, LONG, BACK, TINY};
  int len = c.thorough() ? 6 : 5;
  Box a(p1, 1e-9, 1e-9, 0), b(p2, 1e-11, 1e-11, 0), a0(p1, 1e-9, 1e-9, 0xFF), b0(p2, 1e-11, 1e-11, 0xFF);
  User ua{0, p1.exact(0)}, ub{0, p2.exact(0)};
  std::vector<int> sa, sb; std::vector<Log> la, lb;
  double q = 0, r = 0;
  for (int i = 0; i < len; i++) {
    int w = i ? c.choose(2, "which") : 0, x = ACT[c.choose(i < (c.thorough() ? 4 : 3) ? 3 : 2, "action")];
    if (w == 0) { sa.push_back(x); la.push_back(act(c, a, ua, p1, x, 1e-9, q, "one")); }
    else { sb.push_back(x); lb.push_back(act(c, b, ub, p2, x, 1e-11, r, "two")); }
  }
  mc::Hash h;
  User va{0, p1.exact(0)}, vb{0, p2.exact(0)}; q = r = 0;
  for (size_t i = 0; i < sb.size(); i++) { Log l = act(c, b0, vb, p2, sb[i], 1e-11, r, "two alone"); c.check(l.t == lb[i].t && l.flag == lb[i].flag && (l.y.array() == lb[i].y.array()).all(), "integrator two was influenced by integrator one at step %zu", i); h.q(l.y(0)); }
  for (size_t i = 0; i < sa.size(); i++) { Log l = act(c, a0, va, p1, sa[i], 1e-9, q, "one alone"); c.check(l.t == la[i].t && l.flag == la[i].flag && (l.y.array() == la[i].y.array()).all(), "integrator one was influenced by integrator two at step %zu", i); h.q(l.y(0)); }
  c.state(h.h); c.outcome(h.h);
}

// ---- outputs at a subdivision of an interval agree with the run that only asks for its end
MC_SCENARIO("dense", 0, 0) {
  const Problem &pr = PROBLEMS[c.choose(NPROB, "problem")];
  static const double TOLS[] = {1e-5, 1e-8, 1e-11, 2e-14};
  double tol = TOLS[c.choose(4, "tolerance")];
  static const double LEN[] = {0.05, 1.0, 4.0};
  double len = LEN[c.choose(3, "length")] * (c.flip("backward") ? -1 : 1);
  static const int DIV[] = {1, 2, 7, 50};
  int div = DIV[c.choose(4, "outputs")];
  int lead = c.choose(3, "lead-in");
  double t0 = lead == 2 ? 100.25 : 0.5;
  User u{t0, pr.exact(t0)};
  Box a(pr, tol, tol, 0xFF);
  double acc = 0;
  mc::Hash h; h.s(pr.name).d(tol).d(len).i(div).i(lead);
  auto go = [&](double tout) {
    Eigen::VectorXd out(pr.n), y0 = u.y; double t = u.t; int rc, n = 0;
    while ((rc = a.p->de(t, tout, y0, out)) && n++ < 60) { int f = std::abs(a.p->flag()); c.check(f == 3 || f == 4 || f == 5, "flag %d", f); if (f != 3) c.check(t != u.t, "no progress"); }
    c.check(rc == 0 && t == tout, "status %d flag %d at %.17g instead of %.17g", rc, a.p->flag(), t, tout);
    Eigen::VectorXd e = pr.exact(tout);
    double acc0 = acc;
    for (int i = 0; i < pr.n; i++) {
      double tl = std::max(tol, std::max(a.p->relerr, a.p->abserr));
      c.check(tl <= std::max(tol, 1e-11), "tolerance raised to %.3e", tl);
      double lim = acc = grow(pr, acc0, u.t, tout, tl);
      c.check(std::fabs(out(i) - e(i)) <= lim, "%s component %d at %.12g: error %.2e (tolerance %.1e, limit %.1e)", pr.name, i, tout, out(i) - e(i), tol, lim);
      if (calf()) { double r = std::fabs(out(i) - e(i)) / lim; static double mx[16]; int k = &pr - PROBLEMS; if (r > mx[k]) { mx[k] = r; fprintf(calf(), "CAL %s tol %.0e %.3f\n", pr.name, tol, r); } }
    }
    u.t = t; u.y = out; h.q(out(0)); c.step();
  };
  if (lead == 1) { go(t0 - 0.9 * len); }
  double s = u.t;
  for (int i = 1; i <= div; i++) go(i == div ? s + len : s + len * i / div);
  c.state(h.h); c.outcome(h.h);
}

// ---- many steps: the work limit must be resumable
MC_SCENARIO("long", 0, 0) {
  const Problem &pr = PROBLEMS[c.choose(NPROB, "problem")];
  static const double T[] = {200, -200, 900};
  double tout = T[c.choose(pr.longok ? 3 : 0 + 1, "target")], tol = c.flip("tolerance") ? 1e-12 : 1e-7;
  if (!pr.longok) tout = 20;
  bool stop = c.flip("exact stop");
  Box a(pr, tol, tol, 0xFF); if (stop) a.p->iflag = -1;
  User u{0, pr.exact(0)}; Eigen::VectorXd out(pr.n), y0 = u.y; double t = 0; int n = 0, rc;
  mc::Hash h;
  while ((rc = a.p->de(t, tout, y0, out))) {
    int f = a.p->flag(); c.check(std::abs(f) == 4 || std::abs(f) == 5, "flag %d at %g", f, t); c.check(++n < 400, "no end");
    c.check(stop ? f < 0 : f > 0, "the direction of the flag (%d) was lost", f);
    if (std::fabs(t) > std::fabs(tout)) { c.check(!stop, "went past the target"); }
    Eigen::VectorXd e = pr.exact(t);
    for (int i = 0; i < pr.n; i++) c.check(std::fabs(out(i) - e(i)) <= grow(pr, 0, 0, t, tol), "%s component %d after a work-limit return at %.12g: error %.2e", pr.name, i, t, out(i) - e(i));
    c.step();
  }
  c.check(t == tout && a.p->flag() == 2, "left at %.17g with flag %d", t, a.p->flag());
  Eigen::VectorXd e = pr.exact(t);
  for (int i = 0; i < pr.n; i++) {
    double lim = grow(pr, 0, 0, t, tol);
    c.check(std::fabs(out(i) - e(i)) <= lim, "%s component %d at %.12g: error %.2e limit %.2e", pr.name, i, t, out(i) - e(i), lim);
    if (calf()) { double r = std::fabs(out(i) - e(i)) / lim; static double mx[16]; int k = &pr - PROBLEMS; if (r > mx[k]) { mx[k] = r; fprintf(calf(), "CAL long %s tol %.0e %.3f\n", pr.name, tol, r); } }
    h.q(out(i));
  }
  h.i(n); c.state(h.h); c.outcome(h.h);
}
} // namespace
#ifndef VAR_COPY
MC_PROPERTY("I01", "model_checking",
  "every sequence of drives (short, long, tiny, backward, back to the start, exact stop, restart, stop anywhere) of the real integrator on six problems with known solutions and two / three tolerances, each run twice in differently dirty memory; every interleaving of two integrators against each alone; every combination of problem, tolerance, length, direction, output density and lead-in; runs beyond the work limit",
  "sequences of length <= 4 (quick) / 5 (thorough) over 9 drives (5 in the last place); interleavings of length 5 / 6; both copies (src/integrators, var/ode_solvers)",
  "a global error within 100 x condition x tolerance x (accumulated length + calls) counts as meeting the tolerance")
#endif
