// E02: C04 files and interpolation.
#include "mc.hpp"
#include "datetime/utcdates.hpp"
#include "eop.hpp"
#include "iers2010/iers2010.hpp"
#include <string>
#include <vector>
#include <unistd.h>
namespace {
double val(int day, int k) { // distinct for every day and column, exact in the printed digits
  double b = (k == 2 ? -0.2 : 0.1) + 0.01 * k + 0.001 * day + 0.000003 * (day + 1) * (k + 1);
  return (k & 1) ? -b : b;
}
struct Line { int day; std::string s; bool bad; };
std::string fmt(long mjd, int day, int form) {
  char b[400]; auto d = dso::datetime<dso::nanoseconds>(dso::modified_julian_day(mjd), dso::nanoseconds(0)).as_ymd();
  double v[6]; for (int k = 0; k < 6; k++) v[k] = val(day, k);
  const char *F = form == 0 ? "%4d%4d%4d%7ld%11.6f%11.6f%12.7f%12.7f%11.6f%11.6f%11.6f%11.6f%11.7f%11.7f%12.6f%12.6f"
                : form == 1 ? "%4d%4d%4d%7ld   %.6f   %.6f   %.7f   %.7f   %.6f   %.6f   %.6f   %.6f  %.7f  %.7f  %.6f  %.6f"
                            : "%4d%4d%4d%7ld %.6f %.6f %.7f %.7f %.6f %.6f %.6f %.6f %.7f %.7f %.6f %.6f";
  snprintf(b, sizeof b, F, d.__year.as_underlying_type(), d.__month.as_underlying_type(), d.__dom.as_underlying_type(), mjd, v[0], v[1], v[2], v[3], v[4], v[5], .03, .03, .002, .0014, .004774, .002);
  return b;
}
double rd(double v, int dec) { double p = std::pow(10, dec); return std::round(v * p) / p; }
MC_SCENARIO("files", 2, 3) {
  static const long FIRST[] = {57751, 58847, 37665}; // across a leap second, across a year, the start of the series
  const long first = FIRST[c.choose(3, "first day")]; const int n = c.thorough() ? 6 : 4; // 57754 introduces a leap second
  int form = c.deviate(3, "layout"), head = c.deviate(5, "header");
  std::string eol = c.deviate(2, "line ends") ? "\r\n" : "\n";
  std::vector<Line> L; for (int i = 0; i < n; i++) L.push_back({i, fmt(first + i, i, form), false});
  bool any = false, unsure = false; // deviations of the body
  for (int k = 0; k < 2; k++) {
    int op = c.deviate(9, "body"); if (!op) break; any = true;
    int at = c.choose((int)L.size(), "row");
    switch (op) {
    case 1: L.erase(L.begin() + at); break;
    case 2: { Line q = L[at]; L.insert(L.begin() + at, q); break; }
    case 3: if (at + 1 >= (int)L.size()) c.skip(); std::swap(L[at], L[at + 1]); break;
    case 4: { // cut before a column
      static const int CUT[] = {0, 4, 11, 12, 19, 30, 41, 53, 65, 76}; int p = CUT[c.choose(10, "cut")];
      if (form) c.skip(); std::string &s = L[at].s; if (p >= (int)s.size()) c.skip(); s = s.substr(0, p); L[at].bad = true; if (p <= 11 || p == 12) L[at].day = -99; if (p == 0) L[at].bad = false; break; }
    case 5: { int f = c.choose(7, "field"); if (form || L[at].s.size() < 86) c.skip(); static const int B[] = {12, 19, 30, 41, 53, 65, 76}, W[] = {7, 11, 11, 12, 12, 11, 11}; std::string g(W[f], ' '); g.replace(W[f] - 4, 4, c.flip("garbage") ? "****" : "x.1y"); L[at].s.replace(B[f], W[f], g); L[at].bad = true; if (f == 0) L[at].day = -99; break; }
    case 6: L.insert(L.begin() + at, Line{-98, "# comment", false}); break;
    case 7: L.insert(L.begin() + at, Line{-98, "", false}); break;
    case 8: L[at].s += std::string(c.flip("long") ? 260 : 120, ' '); if (L[at].s.size() > 250) unsure = true; break; // may be refused
    }
  }
  if ((int)L.size() == 0) c.skip();
  if (eol.size() == 2) { if (head == 3) unsure = true; for (auto &l : L) if (l.s.empty()) unsure = true; } // a blank line of the other convention may be refused
  std::string txt;
  static const char *HD[] = {"", "                 EOP (IERS) 14 C04 TIME SERIES\n  Date      MJD      x          y\n", "# header\n#\n", "\n \n", "                                \n  37665 foo\n"};
  for (const char *p = HD[head]; *p; ++p) { if (*p == '\n') txt += eol; else txt += *p; }
  for (size_t i = 0; i < L.size(); i++) { txt += L[i].s; txt += eol; }
  if (c.deviate(2, "final newline")) txt.resize(txt.size() - eol.size());
  int s = c.choose(n + 2, "from") - 1, len = c.choose(n + 2, "days");
  std::string fn = std::string(c.scratch()) + "/c04"; mc::write_file(fn.c_str(), txt);
  dso::EopLookUpTable tab(c.flip("table") ? 10 : 2); // large enough or not
  int rc = dso::parse_iers_C04(fn.c_str(), dso::modified_julian_day(first + s), dso::modified_julian_day(first + s + len), tab);
  c.step();
  // what the file says about the requested days
  std::vector<int> cnt(len, 0); bool must_fail = false, clean = !unsure; int lastday = -1000;
  bool past = false; // the reader stops at the first record after the range
  for (auto &l : L) {
    if (l.day >= s + len || l.s.size() > 250) past = true;
    if (l.day >= s && l.day < s + len) { int &k = cnt[l.day - s]; if (!past || !k) k++; if (!past && l.bad) must_fail = true; }
    if (l.bad) clean = false;
    if (l.day >= 0) { if (l.day <= lastday) clean = false; lastday = l.day; }
  }
  for (int k : cnt) { if (k == 0) must_fail = true; if (k > 1) must_fail = true; }
  if (len == 0) must_fail = false;
  c.note("days %d..%d: %s", s, s + len, must_fail ? "must fail" : clean ? "must succeed" : "either");
  if (must_fail) c.check(rc != 0, "days %d..%d of %d: a missing, repeated or malformed day was accepted\n%s", s, s + len, n, txt.c_str());
  else if (clean) c.check(rc == 0, "days %d..%d: refused with %d\n%s", s, s + len, rc, txt.c_str());
  if (rc == 0) {
    c.check(tab.size() == len, "%d rows instead of %d", tab.size(), len);
    static const int DEC[] = {6, 6, 7, 7, 6, 6};
    for (int i = 0; i < len; i++) {
      long m = first + s + i; double tt = m + (dso::dat(dso::modified_julian_day(m)) + 32.184) / 86400e0;
      c.check(std::fabs(*tab.mjd(i) - tt) < 2e-11 * 1e1, "row %d: epoch %.12f instead of %.12f", i, *tab.mjd(i), tt);
      double g[6] = {*tab.xp(i), *tab.yp(i), *tab.dut(i), *tab.lod(i), *tab.dx(i), *tab.dy(i)};
      static const char *N[] = {"xp", "yp", "dut", "lod", "dx", "dy"};
      for (int k = 0; k < 6; k++) c.check(std::fabs(g[k] - rd(val(s + i, k), DEC[k])) < 1e-12, "row %d: %s is %.9g instead of %.9g", i, N[k], g[k], val(s + i, k));
      c.check(std::isfinite(*tab.omega(i)), "row %d: omega was never set", i);
    }
  }
  mc::Hash h; h.i(rc).i(s).i(len).i(tab.size()).i(any); if (rc == 0 && len > 0) h.q(*tab.xp(0)).q(*tab.dy(len - 1)); c.state(h.h); c.outcome(h.h);
  ::unlink(fn.c_str());
}
MC_SCENARIO("no-file", 0, 0) {
  dso::EopLookUpTable tab; int k = c.choose(3, "case"); std::string fn = std::string(c.scratch()) + "/nofile";
  if (k) mc::write_file(fn.c_str(), k == 1 ? "" : fmt(58000, 0, 0) + "\n");
  int rc = dso::parse_iers_C04(fn.c_str(), dso::modified_julian_day(58001), dso::modified_julian_day(k == 2 ? 57990 : 58003), tab);
  c.check(rc != 0, "case %d accepted", k); c.check(tab.size() >= 0, "negative size");
  if (k) ::unlink(fn.c_str());
  c.step(); c.state(k); c.outcome(rc);
}
// interpolation: every table size, order, column, epoch
MC_SCENARIO("interpolation", 0, 0) {
  int n = c.choose(c.thorough() ? 14 : 10, "rows"), order = 1 + 2 * c.choose(4, "order"), shape = c.choose(4, "shape"); bool spac = c.flip("spacing"), dflt = order == 5 && c.flip("default order");
  auto P = [&](int col, double x) { double a = col + 1, b = 0.1 * (col - 2), q = 0.01 * (col + 1); double y = a; if (shape >= 1) y += b * x; if (shape >= 2) y += q * x * x; if (shape == 3) { double t = 1e-3 * (col + 1); for (int k = 0; k < order; k++) t *= x * 0.3; y += t; } return y; };
  int deg = shape == 3 ? std::max(order, 2) : shape;
  dso::EopLookUpTable T(n ? n : 1); T.resize(n); std::vector<double> X(n);
  for (int i = 0; i < n; i++) { X[i] = 58000.0008 + i + (spac && i >= 3 ? 1.0 / 86400 : 0); *T.mjd(i) = X[i]; double x = X[i] - 58000; *T.xp(i) = P(0, x); *T.yp(i) = P(1, x); *T.dut(i) = P(2, x); *T.dx(i) = P(3, x); *T.dy(i) = P(4, x); *T.lod(i) = P(5, x); *T.omega(i) = std::nan(""); }
  std::vector<double> at; for (int i = 0; i < n; i++) { at.push_back(X[i]); if (i + 1 < n) { at.push_back(X[i] + 0.5); at.push_back(X[i] + 0.01); at.push_back(X[i] + 0.99); } }
  double lo = n ? X[0] : 58000, hi = n ? X[n - 1] : 58000;
  for (double d : {1e-6, 0.5, 400.0}) { at.push_back(lo - d); at.push_back(hi + d); }
  mc::Hash h; h.i(n).i(order).i(shape).i(spac);
  for (double t : at) for (int full = 0; full < 2; full++) {
    dso::EopRecord r, q; std::memset((void *)&r, 0x7F, sizeof r); std::memset((void *)&q, 0xFF, sizeof q);
    int rc, rc2;
    if (dflt) { rc = full ? T.interpolate(t, r) : T.interpolate_lagrange(t, r); rc2 = full ? T.interpolate(t, q) : T.interpolate_lagrange(t, q); }
    else { rc = full ? T.interpolate(t, r, order) : T.interpolate_lagrange(t, r, order); rc2 = full ? T.interpolate(t, q, order) : T.interpolate_lagrange(t, q, order); }
    c.step(); h.i(rc);
    c.check(rc == rc2, "status depends on the record's former contents");
    bool out = n == 0 || t < lo || t > hi || n < order + 1;
    // the rows needed around the epoch must exist
    int k = 0; if (!out) { while (k < n - 2 && t >= X[k + 1]) ++k; }
    bool edge = !out && (k - (order + 1) / 2 + 1 < 0 || k - (order + 1) / 2 + 1 + order + 1 > n);
    if (out) { c.check(rc != 0, "%d rows, order %d, epoch %.6f outside %.6f..%.6f accepted", n, order, t, lo, hi); continue; }
    if (edge) { if (rc) continue; }
    else c.check(rc == 0, "%d rows, order %d, epoch %.6f within %.6f..%.6f refused", n, order, t, lo, hi);
    c.check(std::memcmp(&r, &q, sizeof r) == 0, "result depends on the record's former contents");
    double x = t - 58000, e[6]; for (int i = 0; i < 6; i++) e[i] = P(i, x);
    if (full) {
      double day, f = std::modf(t, &day), jc = (day + dso::mjd0_jd - dso::j2000_jd) / 36525e0 + f / 36525e0, a, b, o, cx, cy, cu, cl;
      iers2010::rg_zont2(jc, a, b, o); e[2] += a; e[5] += b;
      iers2010::interp::pmut1_oceans(jc, cx, cy, cu, cl); e[0] += cx; e[1] += cy; e[2] += cu; e[5] += cl;
      iers2010::interp::pm_gravi(jc, cx, cy); e[0] += cx; e[1] += cy;
    }
    double g[6] = {r.xp, r.yp, r.dut, r.dx, r.dy, r.lod}; static const char *N[] = {"xp", "yp", "dut", "dx", "dy", "lod"};
    c.check(r.mjd == t, "epoch of the record %.9f instead of %.9f", r.mjd, t);
    if (deg <= order) for (int i = 0; i < 6; i++) c.check(mc::close(g[i], e[i], 1e-9, 2e-9), "%s at %.6f (%d rows, order %d, %s): %.12g instead of %.12g", N[i], t, n, order, full ? "corrected" : "plain", g[i], e[i]);
  }
  c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("E02", "model_checking",
  "every file over three first days (leap second, year end, start of series), four rows (six in the thorough tier), layouts, header forms, line ends and up to the stated number of deviations (row missing, repeated, swapped, cut before any column, garbage in any field, comment, blank and over-long lines, no final newline), every requested range in and around it, two table capacities; every table size, order, polynomial degree and epoch (nodes, between, outside) for interpolation, with differently poisoned records",
  "2 deviations (quick) / 3; tables of 0..9 / 13 rows, orders 1, 3, 5, 7",
  "records after the first one past the requested range are not looked at (the documented chronological order), so repeats there are not required to be noticed",
  "a number cut in the middle of its digits cannot be told from a shorter number",
  "Lagrange interpolation and tidal corrections come from a stand-in for the external iers2010 library; near a table's end, where its window does not fit, either refusal or the exact value is accepted")
