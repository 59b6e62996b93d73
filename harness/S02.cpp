// S02: satellite mass and centre-of-gravity histories.
#include "mc.hpp"
#include "satellites.hpp"
#include "satellites/jason3.hpp"
#include "satellites/cryosat2.hpp"
#include <cmath>
#include <unistd.h>
namespace {
using DT = dso::datetime<dso::nanoseconds>;
struct F { std::string n; ~F() { ::unlink(n.c_str()); } };
struct T { long mjd, ns; bool operator<(const T &o) const { return mjd < o.mjd || (mjd == o.mjd && ns < o.ns); } bool operator==(const T &o) const { return mjd == o.mjd && ns == o.ns; } };
const long NS = 1000000000L;
// record epochs: all pairs of days and times of day with the order of the times against that of the days
const T EP[] = {{57405, 0}, {57405, 43200 * NS}, {57405, 86399 * NS + NS / 2}, {57406, 0}, {57406, 100 * NS}, {57500, 86399 * NS}, {57501, 1 * NS}, {58849, 60 * NS + NS / 4}};
const int NE = 8;
std::string num(double v, int form) { char b[60]; snprintf(b, sizeof b, form == 1 ? "%.1f" : form == 2 ? "%.3e" : "%.6f", v); return b; }
MC_SCENARIO("histories", 2, 3) {
  const int nmax = c.thorough() ? 4 : 3, n = c.choose(nmax + 1, "records"); std::vector<T> e; int from = 0; for (int i = 0; i < n; i++) { int k = from + c.choose(NE - from - (n - 1 - i), "epoch"); e.push_back(EP[k]); from = k + 1; }
  std::vector<std::array<double, 4>> cor; for (int i = 0; i < n; i++) cor.push_back({-1.5 * (i + 1), 0.001 * (i + 2), -0.0005 * (i + 3), i == 1 ? 0.0 : 0.25 * i});
  struct L { std::string s; int rec; int bad; }; std::vector<L> ls; const int head = c.deviate(5, "head"); if (head == 1) ls.push_back({"C  date and mass", -1, 0}); if (head == 2) ls.push_back({"// comment", -1, 0}); if (head == 3) { ls.push_back({"C", -1, 0}); ls.push_back({"/", -1, 0}); } if (head == 4) ls.push_back({"C" + std::string(254 - 1, 'x'), -1, 0});
  for (int i = 0; i < n; i++) {
    std::string f[6]; char b[80]; snprintf(b, sizeof b, "%.1f", e[i].mjd + 2400000.5); f[0] = b; snprintf(b, sizeof b, "%ld.%09ld", e[i].ns / NS, e[i].ns % NS); f[1] = b; int form = 0; std::string sep = "  ", lead = "  ", trail = ""; int bad = 0; bool plain = false;
    // 1..7 layouts; then damages: a field garbled, absent, or cut in front of
    int d = c.deviate(8 + 3 * 6 + 2, "record");
    if (d == 1) lead = ""; if (d == 2) lead = std::string(20, ' '); if (d == 3) sep = " "; if (d == 4) trail = "   "; if (d == 5) form = 2; if (d == 6) sep = std::string(9, ' '); if (d == 7) trail = " 2016 JAN 17";
    for (int k = 0; k < 4; k++) f[2 + k] = num(cor[i][k], form);
    (void)plain; std::string s = lead; int fld = (d - 8) / 3, how = (d - 8) % 3; int nf = 6;
    if (d >= 26) { nf = d == 26 ? 0 : 6; bad = 4; if (d == 27) { s = std::string(300, ' '); bad = 5; } }
    else if (d >= 8) { bad = fld < 2 ? 1 : 2; if (how == 0) f[fld] = fld == 1 ? "x1" : "12z4"; if (how == 1) { f[fld] = ""; if (fld == 1) bad = 3; } if (how == 2) nf = fld; }
    for (int k = 0; k < nf; k++) { if (f[k].empty()) continue; if (k) s += sep; s += f[k]; }
    s += trail; ls.push_back({s, i, bad}); if (c.deviate(2, "comment")) ls.push_back({"C 2457404.5 0. 1. 1. 1. 1.", -1, 0});
  }
  // a dropped field shifts the others: that is one number short, which the reader can tell
  const bool last = !c.deviate(2, "no final newline"); std::string t; for (size_t i = 0; i < ls.size(); i++) t += ls[i].s + (i + 1 < ls.size() || last ? "\n" : "");
  F f{std::string(c.scratch()) + "/m.txt"}; mc::write_file(f.n.c_str(), t);
  std::vector<T> q; for (int i = 0; i < NE; i++) for (int d = -1; d <= 1; d++) { T x = EP[i]; x.ns += d; if (x.ns < 0) { x.ns += 86400 * NS; x.mjd--; } q.push_back(x); } q.push_back({57000, 5}); q.push_back({60000, 0}); q.push_back({57406, 86399 * NS}); q.push_back({57502, 0});
  mc::dirty_stack(' ');
  for (auto &x : q) {
    int in = -1; bool must = true, err = false, either = false; // walk the lines the way the file says
    for (auto &l : ls) { if (l.rec < 0) continue; if (l.bad == 1 || l.bad == 4 || l.bad == 5) { err = true; if (l.bad >= 4) either = true; break; } if (l.bad == 3 && x.mjd < e[l.rec].mjd) { err = either = true; break; } if (l.bad == 3) { err = true; break; } if (x < e[l.rec]) { break; } if (l.bad == 2) { err = true; break; } in = l.rec; }
    (void)must; bool later = false; for (auto &l : ls) if (l.bad) later = true;
    DT dt(dso::modified_julian_day(x.mjd), dso::nanoseconds(x.ns)); double d[4] = {1e9, 1e9, 1e9, 1e9}; int rc = dso::get_satellite_corrections(f.n.c_str(), dt, d); c.step();
    if (err && !either) { c.check(rc != 0, "malformed record accepted at %ld %ld\n%s", x.mjd, x.ns, t.c_str()); continue; }
    if (rc && (either || later)) continue;
    if (either) { in = -1; for (auto &l : ls) { if (l.rec < 0 || l.bad == 4) continue; if (x < e[l.rec]) break; in = l.rec; } }
    c.check(rc == 0, "status %d at %ld %ld\n%s", rc, x.mjd, x.ns, t.c_str());
    for (int k = 0; k < 4; k++) c.check(d[k] == (in < 0 ? 0 : std::stod(num(cor[in][k], 0))) || (in >= 0 && mc::close(d[k], cor[in][k], 1e-12, 1e-15)), "correction %d is %.9g instead of %.9g (record %d) at %ld %ld\n%s", k, d[k], in < 0 ? 0. : cor[in][k], in, x.mjd, x.ns, t.c_str());
    double m; Eigen::Matrix<double, 3, 1> g; rc = dso::SatelliteInfo<dso::SATELLITE::Jason3>::mass_cog(dt, f.n.c_str(), m, g);
    c.check(rc == 0 && m == 509.6 + d[0] && g(0) == 1.0023 + d[1] && g(1) == d[2] && g(2) == -0.0021 + d[3], "Jason-3 mass %.6f", m);
    rc = dso::SatelliteInfo<dso::SATELLITE::Cryosat2>::mass_cog(dt, f.n.c_str(), m, g);
    c.check(rc == 0 && m == 724.6 + d[0] && g(0) == 1.6312 + d[1] && g(1) == 0.0112 + d[2] && g(2) == 0.0137 + d[3], "Cryosat-2 mass %.6f", m);
  }
  c.state(mc::Hash().s(t.c_str()).h); c.outcome(n);
}
// the constants of each satellite, as published by the IDS; a box is closed, what a plate reflects and absorbs is all that arrives
MC_SCENARIO("tables", 0, 0) {
  static const double P[2][2][3] = {{{2.4128, -0.1325, 0.9235}, {2.4128, -0.1325, 0.7555}}, {{1.848, -0.200, -0.751}, {1.832, -0.200, -0.598}}};
  static const double M[8][10] = {{0.783, -1, 0, 0, 0.341, 0.646, 0.013, 0, 0.987, 0.013}, {0.783, 1, 0, 0, 0.149, 0.851, 0, 0, 1, 0}, {2.04, 0, -1, 0, 0.573, 0.384, 0.043, 0.104, 0.569, 0.328}, {2.04, 0, 1, 0, 0.539, 0.424, 0.037, 0.089, 0.627, 0.283}, {3.105, 0, 0, -1, 0.246, 0.752, 0.002, 0.005, 0.977, 0.017}, {3.105, 0, 0, 1, 0.213, 0.453, 0.334, 0.037, 0.287, 0.676}, {9.8, 1, 0, 0, 0.06, 0.407, 0.533, 0.097, 0.098, 0.803}, {9.8, -1, 0, 0, 0.004, 0.298, 0.697, 0.035, 0.035, 0.931}};
  int k = c.choose(3, "table"), n = k < 2 ? 2 : dso::MacroModel<dso::SATELLITE::Jason3>::NumPlates, i = c.choose(n, "entry"); c.step(); c.state(mc::Hash().i(k).i(i).h); c.outcome(k);
  if (k < 2) { Eigen::Matrix<double, 3, 1> a, b; a.setConstant(NAN); b.setConstant(NAN); int rc = k ? dso::SatelliteInfo<dso::SATELLITE::Cryosat2>::pco(a, b) : dso::SatelliteInfo<dso::SATELLITE::Jason3>::pco(a, b); for (int j = 0; j < 3; j++) c.check(rc == 0 && mc::close((i ? b : a)(j), P[k][i][j], 1e-12, 1e-12), "%s: %s phase centre[%d] is %.6f", k ? "Cryosat-2" : "Jason-3", i ? "400 MHz" : "2 GHz", j, (i ? b : a)(j)); return; }
  using MM = dso::MacroModel<dso::SATELLITE::Jason3>; c.check(n == 8 && sizeof MM::mmcomponents / sizeof *MM::mmcomponents == 8, "%d plates", n); const auto &p = MM::mmcomponents[i]; if (i >= 8) return;
  const double got[10] = {p.m_surf, p.m_normal[0], p.m_normal[1], p.m_normal[2], p.m_optical_properties[0], p.m_optical_properties[1], p.m_optical_properties[2], p.m_infrared_properties[0], p.m_infrared_properties[1], p.m_infrared_properties[2]}; for (int j = 0; j < 10; j++) c.check(mc::close(got[j], M[i][j], 1e-12, 1e-12), "plate %d: value %d is %.6f instead of %.6f", i, j, got[j], M[i][j]);
  double o = got[4] + got[5] + got[6], r = got[7] + got[8] + got[9]; c.check(std::fabs(o - 1) < 3e-3 && std::fabs(r - 1) < 3e-3, "plate %d returns and absorbs %.3f of the light and %.3f of the heat", i, o, r);
}
MC_SCENARIO("absent file", 0, 0) { double d[4]; const bool dir = c.flip("directory"); std::string n = dir ? std::string(c.scratch()) : std::string(c.scratch()) + "/none"; DT dt(dso::modified_julian_day(58000)); int rc = dso::get_satellite_corrections(n.c_str(), dt, d); c.check(rc != 0, "status 0"); double m; Eigen::Matrix<double, 3, 1> g; c.check(dso::SatelliteInfo<dso::SATELLITE::Jason3>::mass_cog(dt, n.c_str(), m, g) != 0, "mass"); c.step(2); c.state(dir); c.outcome(1); }
} // namespace
MC_PROPERTY("S02", "model_checking",
  "every chronological history over 8 record epochs (times of day ordered against their days), with up to the stated number of deviations in layout (indentation, separators, trailing text, exponents, comments, no final newline) and damage (each field garbled, absent or cut off, blank or over-long record), queried at every record epoch, one nanosecond to either side, and far outside; both satellites",
  "0..3 records and 2 deviations (quick) / 0..4 and 3",
  "the date is a Julian date of midnight plus seconds of the day; before the first record no correction applies; damage after the record that ends the scan may go unnoticed; a blank or over-long line may be skipped or refused")
