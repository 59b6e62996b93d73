// I02: misuse, unreachable tolerances and exhaustion are reported and survivable.
#include "mc.hpp"
#include <cmath>
#include <new>
#define K_ERR 40.0
#include "ode_problems.hpp"
using namespace odep;
static FILE *calf() { static FILE *f = getenv("I01_CAL") ? fopen(getenv("I01_CAL"), "a") : nullptr; if (f) setvbuf(f, nullptr, _IONBF, 0); return f; }
namespace {
struct Box {
  alignas(64) unsigned char mem[sizeof(dso::SGOde)]; dso::SGOde *p;
  Box(const Problem &pr, double r, double a) { std::memset(mem, 0xFF, sizeof mem); p = new (mem) dso::SGOde(FN(pr), pr.n, r, a, PARAMS); }
  ~Box() { p->~SGOde(); }
};
enum { GOOD, GOODSTOP, GOODBACK, LONG, LONGSTOP, SAME, NEGREL, NEGABS, ZEROTOL, FLAG0, FLAG9, MOVED, IMPOSSIBLE, PUREREL, NACT };
const char *NAME[] = {"good", "good-stop", "good-back", "long", "long-stop", "same-epoch", "negative-rel", "negative-abs", "zero-tolerances", "flag-0", "flag-9", "moved-epoch", "impossible", "pure-relative"};
// tolerance the integrator now works to
MC_SCENARIO("misuse", 0, 0) {
  static const int PR[] = {2, 3, 5};
  const Problem &pr = PROBLEMS[PR[c.choose(3, "problem")]];
  const double tol0 = c.flip("tolerance") ? 1e-11 : 1e-7;
  int depth = c.thorough() ? 4 : 3;
  Box b(pr, tol0, tol0); dso::SGOde &s = *b.p;
  double t = 0, acc = 0; Eigen::VectorXd y = pr.exact(0); bool fresh = true;
  mc::Hash h;
  for (int i = 0; i < depth; i++) {
    static const int LAST[] = {GOOD, GOODSTOP, GOODBACK, LONG};
    int a = i + 1 == depth ? c.pick(LAST, "action") : c.choose(NACT, "action");
    double tc = t; Eigen::VectorXd out = Eigen::VectorXd::Constant(pr.n, 4.25), y0 = y; long ev = nev;
    bool bad = false; double tout = t + 0.8, tol = tol0;
    s.relerr = s.abserr = tol0; // the caller (re)states its tolerances
    switch (a) {
    case GOODSTOP: s.iflag = -std::abs(s.iflag); break;
    case GOODBACK: tout = t - 0.6; break;
    case LONG: tout = t + (tol0 < 1e-9 ? 75 : 150); break;
    case LONGSTOP: tout = t - (tol0 < 1e-9 ? 75 : 150); s.iflag = -std::abs(s.iflag); break;
    case SAME: tout = t; bad = true; break;
    case NEGREL: s.relerr = -1e-9; bad = true; break;
    case NEGABS: s.abserr = -1e-9; bad = true; break;
    case ZEROTOL: s.relerr = s.abserr = 0; bad = true; break;
    case FLAG0: s.iflag = 0; bad = true; break;
    case FLAG9: s.iflag = 9; bad = true; break;
    case MOVED: if (fresh) { bad = false; } else { tc = t + 0.05; bad = true; } break;
    case IMPOSSIBLE: s.relerr = s.abserr = 1e-17; break;
    case PUREREL: s.abserr = 1e-30; break;
    }
    if (a == PUREREL && (pr.f == f_osc || pr.f == f_kep || pr.f == f_sev)) s.abserr = tol0 * 1e-3;
    if (a == MOVED && fresh) tc = t;
    if (bad) {
      double tb = tc;
      int rc = s.de(tc, tout, y0, out);
      c.check(rc != 0 && rc != 100, "%s: status %d", NAME[a], rc);
      c.check(a == FLAG9 ? s.flag() != 2 : s.flag() == 6, "%s: flag %d", NAME[a], s.flag());
      c.check(tc == tb, "%s: the epoch moved", NAME[a]);
      c.check((y0.array() == y.array()).all(), "%s: the initial state was changed", NAME[a]);
      c.check(nev == ev, "%s: derivatives were evaluated", NAME[a]);
      s.iflag = 1; fresh = true; // a corrected call starts anew
      h.i(rc).i(s.flag()); c.step();
      continue;
    }
    int n = 0, rc, n3 = 0;
    while (true) {
      double tb = tc; long e0 = nev;
      const int isn = s.iflag < 0 ? -1 : 1;
      rc = s.de(tc, tout, y0, out); int f = s.flag();
      c.check(nev - e0 <= 2 + 500 * 60, "%ld evaluations in one call", nev - e0);
      if (calf()) fprintf(calf(), "%s t %.17g x %.17g h %.3e k %d start %d flag %d rel %.3e abs %.3e nev %ld\n", NAME[a], tc, s.x, s.h, s.k, s.start, f, s.relerr, s.abserr, nev - e0);
      c.check((rc == 0) == (f == 2), "%s: status %d flag %d", NAME[a], rc, f);
      tol = std::max(s.relerr, s.abserr);
      acc = grow(pr, acc, tb, tc, tol); Eigen::VectorXd e = pr.exact(tc);
      for (int k = 0; k < pr.n; k++) c.check(std::fabs(out(k) - e(k)) <= acc, "%s: flag %d at t=%.12g: component %d is %.12g instead of %.12g (limit %.1e)", NAME[a], f, tc, k, out(k), e(k), acc);
      if (rc == 0) break;
      c.check(f * isn > 0 && std::abs(f) >= 3 && std::abs(f) <= 5, "%s: flag %d", NAME[a], f);
      if (std::abs(f) == 3) {
        c.check(tol > 1e-17 && tol < 1e-9, "%s: tolerance raised to %.3e", NAME[a], tol);
        c.check(a == IMPOSSIBLE || tol0 < 1e-10 || a == PUREREL, "%s: tolerance %.0e called unreachable", NAME[a], tol0);
        c.check(++n3 < 40, "tolerance raised %d times", n3); if (n3 > 2) { s.relerr *= 4; s.abserr *= 4; } // the caller gives in
      } else {
        c.check((tc - tb) * (tout - t) > 0, "%s: no progress at %.9g", NAME[a], tc);
        c.check(nev - e0 >= 500, "%s: work limit after %ld evaluations", NAME[a], nev - e0);
      }
      c.check(++n < 600, "%s: no end", NAME[a]);
      y0 = out;
      if ((tc - tout) * (tout - t) > 0) { // stopped beyond the target: turn towards it
        c.check(isn > 0, "%s: went past the target", NAME[a]);
      }
      if (tc == tout) break; // stopped exactly there
    }
    if (a == IMPOSSIBLE) c.check(n3 > 0, "a tolerance of 1e-17 was accepted");
    c.check(tc == tout, "%s: asked for %.17g, left at %.17g", NAME[a], tout, tc);
    t = tc; y = out; fresh = false; if (rc) { s.iflag = 1; fresh = true; }
    for (int k = 0; k < pr.n; k++) h.q(y(k));
    h.d(t); c.step(); c.state(h.h);
  }
  c.outcome(h.h);
}
// constructed with bad arguments
MC_SCENARIO("constructed", 0, 0) {
  static const double T[] = {-1e-3, 0e0, 1e-9, 1e-3, 1e-17};
  double r = c.pick(T, "relative"), ab = c.pick(T, "absolute"); const Problem &pr = PROBLEMS[c.choose(NPROB, "problem")];
  double tout = c.flip("same") ? 1e0 : c.flip("backward") ? 0.5 : 1.5, t = 1e0; bool stop = c.flip("stop");
  Box b(pr, r, ab); if (stop) b.p->iflag = -1;
  Eigen::VectorXd y0 = pr.exact(1), out = y0; int rc = b.p->de(t, tout, y0, out), f = std::abs(b.p->flag());
  bool bad = r < 0 || ab < 0 || (r == 0 && ab == 0) || tout == 1;
  if (bad) c.check(rc != 0 && f == 6 && t == 1, "accepted: status %d flag %d epoch %g", rc, f, t);
  else {
    c.check((rc == 0) == (f == 2) && (f >= 2 && f <= 5), "status %d flag %d", rc, f);
    if (rc == 0) { c.check(t == tout, "left at %g", t); Eigen::VectorXd e = pr.exact(t); double tl = std::max(r, ab); for (int k = 0; k < pr.n; k++) c.check(std::fabs(out(k) - e(k)) <= grow(pr, 0, 1, t, tl), "component %d off by %.2e", k, out(k) - e(k)); }
    bool hopeless = r < 1e-16 && ab < 1e-16;
    c.check(hopeless ? f == 3 : true, "tolerances %g %g accepted", r, ab);
  }
  c.step(); mc::Hash h; h.i(rc).i(f).q(out(0)); c.state(h.h); c.outcome(h.h);
}
} // namespace
#ifndef VAR_COPY
MC_PROPERTY("I02", "fault_enumeration",
  "every sequence of good calls, runs past the work limit, coincident epochs, negative and zero tolerances, foreign flags, moved epochs and unreachable tolerances; after each refusal the caller restarts from the state it holds; every construction with good and bad tolerances",
  "sequences of length 3 (quick) / 4 over 14 kinds of call (4 in the last place), three problems, two tolerances, both copies",
  "after a refusal (flag 6) the caller sets the flag back to 1, as the reference implementation documents")
#endif
