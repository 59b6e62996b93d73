// R04: fits of the receiver's relative frequency offset.
#include "mc.hpp"
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
using namespace rnx;
namespace {
using DT = dso::datetime<dso::nanoseconds>;
struct Files { std::vector<std::string> n; ~Files() { for (auto &s : n) ::unlink(s.c_str()); } };
const long DAY = 86400;
// seconds from 2020-01-01 00:00:00
DT at(long s) { return DT(dso::modified_julian_day(58849 + s / DAY), dso::nanoseconds((s % DAY) * 1000000000L)); }
Date date(long s) { int d = 1 + s / DAY; s %= DAY; return {2020, 1, d, (int)(s / 3600), (int)(s / 60 % 60), double(s % 60)}; }
struct Blk { long t; int kind; bool hasoff; long off; double f; };
// kinds: 0 one beacon, 1 two beacons, 2 no beacon, 3 the only F missing, 4 the first of two F missing, 5 all F missing, 6 the second of two missing
int nbeacons(int k) { return k == 2 ? 0 : (k == 0 || k == 3) ? 1 : 2; }
bool missing(int k, int b) { return k == 3 || k == 5 || (k == 4 && b == 0) || (k == 6 && b == 1); }
bool usable(int k) { return k != 2 && k != 3 && k != 5; }
std::string text(const Header &H, const std::vector<Blk> &bl, int fpos) {
  std::string s = H.text(); const int nc = H.codes.size();
  for (auto &b : bl) {
    Block k; k.t = date(b.t); k.has_off = b.hasoff; k.off = b.off; k.flag = k.cflag = 0; k.has_cflag = true;
    for (int i = 0; i < nbeacons(b.kind); i++) { Beacon x; x.in = i ? "D02" : "D01"; for (int j = 0; j < nc; j++) { if (j == fpos) x.v.push_back({missing(b.kind, i) ? Val::BLANK : Val::NUM, b.f, ' ', ' '}); else x.v.push_back({Val::NUM, 1000.5 + j + 10 * i + b.t, ' ', ' '}); } k.b.push_back(x); }
    for (auto &l : lines(k)) s += l + "\n";
  }
  return s;
}
const long SPACING[3][6] = {{0, 3, 10, 13, 20, 23}, {0, 10, 20, 30, 40, 50}, {0, 7, 107, 110, 3710, 3713}};
struct Setup { Header H; int fpos; };
Setup header(int layout, int rcv) { Setup s; if (layout == 0) { s.H.codes = {"L1", "L2", "F"}; s.fpos = 2; } else if (layout == 1) { s.H.codes = {"F", "L1"}; s.fpos = 0; } else { s.H.codes = {"L1", "L2", "C1", "C2", "W1", "W2", "F"}; s.fpos = 6; } s.H.rcv = rcv; return s; }
MC_SCENARIO("fit", 2, 3) {
  const int order = 1 + c.choose(3, "order"), every = order > 1 ? 1 : 1 + c.choose(4, "every"), sp = c.choose(3, "spacing"), n = c.choose(c.thorough() ? 8 : 7, "blocks"), nf = 1 + c.flip("two files"), cf = c.choose(3, "coefficients"); const bool tai = c.flip("tai");
  const int rcv = c.deviate(3, "applied") - 1; auto S = header(c.deviate(3, "layout"), rcv);
  static const double C[3][4] = {{12.5, 0.25, 0.001, 0.001}, {-40, 0, -0.002, 0}, {3000.125, -1.125, 0.5, -0.003}};
  std::vector<std::vector<Blk>> bl(nf); std::vector<std::vector<Blk>> all(nf); long T0 = 63;
  auto F = [&](double t) { double f = 0, p = 1; for (int i = 0; i <= order; i++, p *= t) f += C[cf][i] * p; return f; };
  for (int i = 0; i < n; i++) { const int f = nf == 2 && i >= (n + 1) / 2; long t = T0 + SPACING[sp][i % 6] + (i >= 6 ? 5000 : 0) + (f && order == 1 ? DAY : 0); Blk b; b.t = t; b.kind = c.deviate(7, "block"); b.hasoff = !c.deviate(2, "no offset"); b.off = 2; b.f = 0; bl[f].push_back(b); }
  // the receiver's clock offset differs in one block
  if (n) { int w = c.deviate(1 + n, "other offset"); if (w) { int i = w - 1, f = 0; if (i >= (int)bl[0].size()) { i -= bl[0].size(); f = 1; } bl[f][i].off = -1; } }
  const int win = c.deviate(6, "window"); DT start = DT::min(), end = DT::max(); auto tl1 = [&](const Blk &b) { return b.t + (rcv == 1 || !b.hasoff ? 0 : b.off); };
  long ws = -1, we = 1L << 40; std::vector<long> ts; for (auto &f : bl) for (auto &b : f) ts.push_back(tl1(b));
  if (win && ts.empty()) c.skip();
  if (win == 1 || win == 3) ws = ts[ts.size() / 3]; if (win == 2 || win == 3) we = ts[ts.size() - 1]; if (win == 4) ws = ts.back() + 1; if (win == 5) { ws = ts[0] + 1; we = ts.back() + 1; }
  for (size_t i = 1; i < ts.size(); i++) if (ts[i] <= ts[i - 1]) c.skip();
  if (ws >= 0) start = at(ws); if (we < 1L << 40) end = at(we);
  Files fl; std::vector<const char *> names; int points = 0, used = 0; std::vector<std::pair<long, double>> chk;
  for (int f = 0; f < nf; f++) {
    int u = 0; for (auto &b : bl[f]) { long t = tai ? tl1(b) : b.t; b.f = F(t); if (std::fabs(b.f) > 9e8) c.skip(); chk.push_back({t, b.f}); if (usable(b.kind) && tl1(b) >= ws && tl1(b) < we) u++; }
    points += (u + every - 1) / every; used += u;
    S.H.refdate = f ? Date{2020, 1, 2, 0, 0, 0.0} : Date{2020, 1, 1, 0, 0, 0.0};
    fl.n.push_back(std::string(c.scratch()) + "/f" + std::to_string(f) + ".rnx"); mc::write_file(fl.n.back().c_str(), text(S.H, bl[f], S.fpos));
  }
  for (auto &s : fl.n) names.push_back(s.c_str());
  dso::PolynomialModel<DT> fit(order); for (int i = 0; i <= order; i++) fit.cf[i] = 1e30; mc::dirty_stack(0x5a); fflush(stdout);
  const int rc = nf == 1 && c.flip("one file") ? dso::fit_relative_frequency_offset(names[0], fit, tai, every, start, end) : dso::fit_relative_frequency_offset(names, fit, tai, every, start, end); c.step(n + 1);
  if (points <= order) { c.check(rc != 0, "%d points were enough for order %d", points, order); c.outcome(1000 + order); return; }
  c.check(rc == 0, "refused although there are %d points (status %d)", points, rc);
  c.check(fit.xref == at(0), "reference epoch"); c.check(fit.order() == order, "order");
  double mx = 1; for (auto &p : chk) mx = std::max(mx, std::fabs(p.second)); for (int i = 0; i <= order; i++) mx = std::max(mx, std::fabs(C[cf][i]) * std::pow((double)(chk.back().first), i));
  const double tol = mx * (order == 1 ? 1e-8 : order == 2 ? 1e-5 : 2e-3);
  // checked inside what the points span: an extrapolation magnifies rounding
  for (auto &p : chk) { double v = fit.value_at(at(p.first)); c.check(std::fabs(v - p.second) <= tol * (used == (int)chk.size() ? 1 : 1e3), "at %ld s the model gives %.9g, the file %.9g (order %d, every %d, %d points of %d blocks)", p.first, v, p.second, order, every, points, n); }
  mc::Hash h; for (auto &f : bl) { h.i(99); for (auto &b : f) h.i(b.t).i(b.kind).i(b.off).i(b.hasoff); } c.state(h.i(order).i(every).i(win).i(tai).h); c.outcome(order * 100 + points);
}
// what cannot be fitted
MC_SCENARIO("refusals", 0, 0) {
  Header H; H.codes = {"L1", "L2", "F"}; std::vector<Blk> bl; for (int i = 0; i < 4; i++) bl.push_back({63 + 10 * i, 0, true, 0, 12.5 + 0.5 * (63 + 10 * i)});
  const int kind = c.choose(10, "kind"), pos = c.choose(3, "position"), every = 1 + c.choose(2, "every"); Files fl; int fpos = 2; std::string good = text(H, bl, fpos), bad = good;
  if (kind == 1) { H.codes = {"L1", "L2"}; fpos = -1; bad = text(H, bl, fpos); }
  if (kind == 2) bad = bad.substr(0, bad.rfind("D01")); // the last line is absent
  if (kind == 3) bad = bad.substr(0, bad.size() - 100); // inside an epoch line
  if (kind == 4) bad = bad.substr(0, 300);
  if (kind == 5) bad = "";
  if (kind == 6) { size_t p = bad.rfind("> 2020"); bad[p + 4] = 'x'; }
  if (kind == 7) { size_t p = bad.find("END OF HEADER"); bad.replace(p, 13, "XXX OF HEADER"); }
  for (int i = 0; i < 3; i++) { fl.n.push_back(std::string(c.scratch()) + "/g" + std::to_string(i) + ".rnx"); if (i == pos && kind == 8) { fl.n.back() += ".absent"; continue; } mc::write_file(fl.n.back().c_str(), i == pos ? bad : good); }
  std::vector<const char *> names; for (auto &s : fl.n) names.push_back(s.c_str());
  dso::PolynomialModel<DT> fit(1); int rc = kind == 9 ? dso::fit_relative_frequency_offset(std::vector<const char *>{}, fit, false, every) : dso::fit_relative_frequency_offset(names, fit, false, every); c.step();
  c.check((rc == 0) == (kind == 0), "kind %d at file %d: status %d", kind, pos, rc); if (!rc) c.check(mc::close(fit.value_at(at(100)), 62.5, 1e-8, 0), "value");
  // the sequential estimator
  std::vector<char *> nm; for (auto &s : fl.n) nm.push_back(const_cast<char *>(s.c_str()));
  if (every == 1) { fflush(stdout); int keep = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); int r2 = dso::fit_relative_frequency_offset(nm.data(), kind == 9 ? 0 : 3); fflush(stdout); dup2(keep, 1); close(keep); close(nul); c.step(); c.check((r2 == 0) == (kind == 0), "sequential estimator, kind %d at file %d: status %d", kind, pos, r2); }
  c.state(kind * 10 + pos); c.outcome(kind);
}
// the sequential (Kalman) estimator, through what it prints
MC_SCENARIO("sequential", 1, 2) {
  const int sp = c.choose(3, "spacing"), n = c.choose(c.thorough() ? 6 : 5, "blocks"), nf = 1 + c.flip("two files"), cf = c.choose(3, "coefficients"); auto S = header(c.choose(3, "layout"), -1);
  static const double C[3][2] = {{12.5, 0.25}, {-40, 0}, {3000.125, -1.125}}; std::vector<std::vector<Blk>> bl(nf); long t0 = -1; int used = 0, firstfile = 0;
  for (int i = 0; i < n; i++) { const int f = nf == 2 && i >= (n + 1) / 2; Blk b; b.t = 63 + SPACING[sp][i]; b.kind = c.deviate(7, "block"); b.hasoff = true; b.off = 0; b.f = C[cf][0] + C[cf][1] * b.t; if (usable(b.kind)) { used++; if (!f) firstfile++; if (t0 < 0) t0 = b.t; } bl[f].push_back(b); }
  Files fl; std::vector<char *> names; for (int f = 0; f < nf; f++) { fl.n.push_back(std::string(c.scratch()) + "/s" + std::to_string(f) + ".rnx"); mc::write_file(fl.n.back().c_str(), text(S.H, bl[f], S.fpos)); } for (auto &s : fl.n) names.push_back(const_cast<char *>(s.c_str()));
  const std::string out = std::string(c.scratch()) + "/out.txt"; fl.n.push_back(out); fflush(stdout); int keep = dup(1), o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1);
  const int rc = dso::fit_relative_frequency_offset(names.data(), nf, 1e4, 1e6, 1e-3); fflush(stdout); dup2(keep, 1); close(keep); close(o); c.step(n);
  if (!firstfile) { c.check(rc != 0, "no value in the first file, yet status %d", rc); c.outcome(0); return; }
  c.check(rc == 0, "refused (status %d) with %d values", rc, used);
  std::string s = mc::read_file(out.c_str()); size_t p = s.rfind("Model: "); double a = NAN, b = NAN; c.check(p != std::string::npos && sscanf(s.c_str() + p, "Model: %lf + %lf", &a, &b) == 2, "no model printed");
  const double wa = C[cf][0] + C[cf][1] * t0, wb = C[cf][1] * DAY; c.check(mc::close(a, wa, 1e-6, 2e-3), "offset %.4f instead of %.4f", a, wa); if (used > 1) c.check(mc::close(b, wb, 1e-3, 2), "drift %.4f instead of %.4f per day (%d values)", b, wb, used);
  mc::Hash h; for (auto &f : bl) for (auto &b : f) h.i(b.t).i(b.kind); c.state(h.i(cf).i(nf).h); c.outcome(used);
}
} // namespace
MC_PROPERTY("R04", "model_checking",
  "every file or pair of files over block counts, three spacings of the blocks, orders, averaging lengths, coefficients, time scales, with up to the stated number of deviations: blocks without beacons, with the only / first / second / every offset missing, clock offset absent or different or applied, observable layouts, windows cutting either end or everything; through both least-squares overloads and the sequential estimator; every kind of unusable file at every place of a list",
  "0..6 blocks, 2 deviations (quick) / 0..7 and 3; sequential estimator 0..4 blocks with 1 / 0..5 with 2",
  "offsets follow a polynomial of the fitted order with values exact in the file's format; orders 2 and 3 are not averaged (averaging a curved function is not exact)",
  "the reference epoch is the one the first file's header states; the sequential estimator is given wide priors and judged by the model it prints")
