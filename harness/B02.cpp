// B02: atmosphere inputs follow the clock.
#include "mc.hpp"
#include "atmosphere/nrlmsise00.hpp"
#include "swgen.hpp"
#include <memory>
#include <unistd.h>
namespace {
using namespace dso::nrlmsise00; using detail::InParamsCore; using detail::Nrlmsise00DataFeed;
const int N = 14; const long FIRST = 59574; // across a year end
std::string make(mc::Ctx &c, int gap, bool nl, bool prm) {
  std::string t = std::string(sw::HEAD) + "\n"; for (int i = 0; i < N; i++) if (i != gap) t += sw::join(sw::cols(FIRST + i, i)) + "\n";
  if (prm) t += "2022-03-01,2777,1,,,,,,,,,,,,,,,,,,,,,,110,108.5,90.1,PRM,91.2,93.3,94.4,95.5\n";
  if (!nl) t.pop_back();
  std::string fn = std::string(c.scratch()) + "/feed.csv"; mc::write_file(fn.c_str(), t); return fn;
}
bool valid(int day, int gap) { return day - 3 >= 0 && day < N && !(gap >= day - 3 && gap <= day); }
// the documented content, hours counted backwards from the epoch
void expect(mc::Ctx &c, const InParamsCore &p, int day, double sec, const char *what) {
  day += (int)(sec / 86400); sec = std::fmod(sec, 86400); int slot = (int)(sec / 10800), g = day * 8 + slot;
  auto A = [&](int k) { return (double)sw::ap(k / 8, k % 8); };
  double a[7] = {(double)sw::apavg(day), A(g), A(g - 1), A(g - 2), A(g - 3), 0, 0};
  for (int k = 4; k < 12; k++) a[5] += A(g - k) / 8; for (int k = 12; k < 20; k++) a[6] += A(g - k) / 8;
  c.check(std::fabs(p.f107A - sw::fl(day, 2)) < 1e-9, "%s: day %d: F10.7 average %.6g instead of %.6g", what, day, p.f107A, sw::fl(day, 2));
  c.check(std::fabs(p.f107 - sw::fl(day - 1, 0)) < 1e-9, "%s: day %d: F10.7 of the previous day %.6g instead of %.6g", what, day, p.f107, sw::fl(day - 1, 0));
  c.check(p.ap == sw::apavg(day), "%s: day %d: daily Ap %.6g instead of %d", what, day, p.ap, sw::apavg(day));
  for (int k = 0; k < 7; k++) c.check(std::fabs(p.aparr.a[k] - a[k]) < 1e-9, "%s: day %d %.3f s: Ap entry %d is %.6g instead of %.6g", what, day, sec, k, p.aparr.a[k], a[k]);
}
void set(InParamsCore &p, int day, double sec) { auto y = dso::datetime<dso::seconds>(dso::modified_julian_day(FIRST + day), dso::seconds(0)).as_ydoy(); p.year = y.__year.as_underlying_type(); p.doy = y.__doy.as_underlying_type(); p.sec = sec; }
const double SEC[] = {0, 10800, 86399.999, 10799.999, 43210.5, 21600, 32400, 54000, 64800, 75600, 86400, 97200.25, 5400};
void history(mc::Ctx &c, int depth, int nday, int nsec) {
  static const int DAY[] = {5, 6, 7, 8, 4, 3, 13, 14, 2, 10, 9, 11};
  int file = c.choose(3, "file"); int gap = file == 1 ? 8 : -1; std::string fn = make(c, gap, file != 2, file == 1);
  int d0 = DAY[c.choose(3, "start day")]; double s0 = SEC[c.choose(3, "start time")];
  bool viaclass = c.flip("through InParams"); mc::Hash h; h.i(file).i(viaclass);
  std::unique_ptr<InParams<detail::FluxDataFeedType::ST_CSV_SW>> q; InParamsCore core; std::unique_ptr<Nrlmsise00DataFeed> feed;
  bool ok0 = valid(d0, gap), threw = false;
  try { if (viaclass) q.reset(new InParams<detail::FluxDataFeedType::ST_CSV_SW>(fn.c_str(), dso::modified_julian_day(FIRST + d0), s0)); else { set(core, d0, s0); feed.reset(new Nrlmsise00DataFeed(fn.c_str(), core)); } } catch (std::runtime_error &) { threw = true; }
  c.check(threw == !ok0, "start at day %d: %s", d0, threw ? "refused" : "accepted"); c.step();
  if (!threw) {
    expect(c, viaclass ? q->params_ : core, d0, s0, "start");
    for (int k = 0; k < depth; k++) {
      int d = DAY[c.choose(nday, "day")]; double s = SEC[c.choose(nsec, "time")]; int rc;
      if (viaclass) rc = q->update_params((int)(FIRST + d), s); else { set(core, d, s); rc = feed->update(core); }
      c.step(); h.i(rc); bool ok = valid(d + (int)(s / 86400), gap);
      c.check((rc == 0) == ok, "update %d to day %d %.3f s: status %d", k, d, s, rc);
      if (!rc) {
        const InParamsCore &p = viaclass ? q->params_ : core; char w[60]; snprintf(w, sizeof w, "update %d", k); expect(c, p, d, s, w);
        if (viaclass) { c.check(std::fabs(p.sec - std::fmod(s, 86400)) < 1.5e-3, "update %d: seconds %.6f instead of %.6f", k, p.sec, s); InParamsCore e; set(e, d + (int)(s / 86400), 0); c.check(p.year == e.year && p.doy == e.doy, "update %d: date %d %d", k, p.year, p.doy); }
        h.q(p.aparr.a[6]).q(p.f107);
      }
    }
  }
  c.state(h.h); c.outcome(h.h); ::unlink(fn.c_str());
}
MC_SCENARIO("days", 0, 0) { history(c, c.thorough() ? 4 : 3, c.thorough() ? 10 : 9, 2); }
MC_SCENARIO("hours", 0, 0) { history(c, c.thorough() ? 3 : 2, c.thorough() ? 8 : 5, 13); }
MC_SCENARIO("every-hour", 0, 0) { // forward and backward over several days, by every step
  std::string fn = make(c, -1, c.flip("final newline"), false); static const double ST[] = {900, 1800, 3600, 10800, 14400, 43200, 86400, 100000}; double st = ST[c.choose(8, "step")]; bool back = c.flip("backward");
  InParamsCore p; double t = back ? 13 * 86400. : 3 * 86400.; set(p, (int)(t / 86400), 0); Nrlmsise00DataFeed f(fn.c_str(), p);
  for (double x = 0; x < 9.9 * 86400; x += st) { double at = back ? t - x : t + x; int d = (int)(at / 86400); set(p, d, at - d * 86400.); c.check(f.update(p) == 0, "step to day %d refused", d); expect(c, p, d, at - d * 86400., "walk"); c.step(); }
  mc::Hash h; h.d(st).i(back).q(p.aparr.a[5]); c.state(h.h); c.outcome(h.h); ::unlink(fn.c_str());
}
MC_SCENARIO("long-path", 0, 0) {
  static const int LEN[] = {200, 254, 255, 256, 257, 300, 1000}; int len = LEN[c.choose(7, "length")]; std::string base = make(c, -1, true, false), dir = base.substr(0, base.rfind('/')), fn = dir; while ((int)fn.size() + 9 < len) fn += "/"; fn += "feed.csv"; while ((int)fn.size() < len) fn.insert(dir.size(), "/");
  InParamsCore p; set(p, 5, 0); bool threw = false; int rc = -1; try { std::unique_ptr<Nrlmsise00DataFeed> f(new Nrlmsise00DataFeed(fn.c_str(), p)); expect(c, p, 5, 0, "long path"); set(p, 6, 0); rc = f->update(p); } catch (std::runtime_error &) { threw = true; }
  c.check(threw || rc == 0, "a path of %d characters: update failed", (int)fn.size()); if (len < 255) c.check(!threw, "a path of %d characters was refused", (int)fn.size()); c.step(); c.state(len); c.outcome(threw); ::unlink(base.c_str());
}
// place and local solar time: consistent with the clock whatever the order of the calls
MC_SCENARIO("place", 0, 0) { std::string fn = make(c, -1, true, false); InParams<detail::FluxDataFeedType::ST_CSV_SW> q(fn.c_str(), dso::modified_julian_day(FIRST + 5), 3600); mc::Hash h; int n = c.thorough() ? 4 : 3; bool placed = false; double lon = 0, lat = 0, alt = 0;
  for (int k = 0; k < n; k++) { int op = c.choose(13, "call"); if (op < 4) { static const double S[] = {0, 43200, 86399.999, 97200.25}; if (q.update_params((int)FIRST + 6, S[op])) c.fail("update refused"); }
    else { static const double L[] = {0, 90, -90, 179.99, -179.99, 23.7, -116.2, 45, 10}, B[] = {0, 30, -30, 12, 5, 89.9, -66.4, 60, -45}, H[] = {0, 400, 1336, 2000, 100, 700, 650, 35786, 800}; lon = L[op - 4]; lat = B[op - 4]; alt = H[op - 4]; placed = true;
      const long double D = 3.14159265358979323846L / 180, a = 6378137.0L, f = 1 / 298.257222100882711L, e2 = f * (2 - f), sl = sinl(lat * D), cl = cosl(lat * D), nn = a / sqrtl(1 - e2 * sl * sl), hh = alt * 1000.0L; Eigen::Matrix<double, 3, 1> x; x << (double)((nn + hh) * cl * cosl(lon * D)), (double)((nn + hh) * cl * sinl(lon * D)), (double)((nn * (1 - e2) + hh) * sl); q.set_spatial_from_cartesian(x); }
    c.step(); const auto &p = q.params_; double d = std::fmod(p.lst - (p.sec / 3600 + p.glon / 15) + 1008, 24); c.check(std::min(d, 24 - d) < 1e-9, "call %d: local solar time %.9g h at %.9g s and longitude %.9g", k, p.lst, p.sec, p.glon);
    if (placed) c.check(std::fabs(p.glon - lon) < 1e-8 && std::fabs(p.glat - lat) < 1e-8 && std::fabs(p.alt - alt) < 1e-5, "call %d: placed at %.9g %.9g %.9g km instead of %g %g %g", k, p.glon, p.glat, p.alt, lon, lat, alt); h.i(op).q(p.lst); }
  c.state(h.h); c.outcome(h.h); ::unlink(fn.c_str()); }
} // namespace
MC_PROPERTY("B02", "model_checking",
  "every sequence of updates over days (adjacent, earlier, later, without enough history, absent, after a gap) and times (both sides of slot and day boundaries, beyond a day), through the feed and through the parameter class, over three files (complete, with a gap and trailing monthly rows, no final newline); walks by eight steps in both directions; sequences of clock updates and Cartesian placements",
  "3 updates over 9 days x 2 times and 2 updates over 5 days x 13 times (quick) / 4 over 10 x 2 and 3 over 8 x 13",
  "inputs are compared with indices counted backwards from the epoch, three hours at a time, on files in which every index differs")
