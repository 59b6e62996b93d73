// N01: site coordinates from a SINEX solution.
#include "mc.hpp"
#include "doris_system_info.hpp"
#include "doris_utils.hpp"
#include "sinex/sinex.hpp"
#include <memory>
#include <string>
#include <vector>
namespace {
using DT = dso::datetime<dso::microseconds>;
// identifiers share prefixes and one is a permutation of another
const char *ID[] = {"DIOA", "DIOB", "ADIO", "MISS"};
const char *COMP[] = {"STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ"};
const int MJD[] = {55197, 53371, 58849};
double val(int s, int sol, int k) { return k < 3 ? 1e6 * (1 + s) + 4e5 * (k + 1) * (k == 1 ? -1 : 1) + 1000 * sol + 0.125 * k : 0.01 * (s + 1) * (k == 4 ? -1 : 1) + 0.003 * (k - 2) + 0.5 * sol; }
DT epoch(int s, int sol, int k) { return DT(dso::modified_julian_day(MJD[s] + 365 * sol + (k % 3)), dso::microseconds(43200000000L * ((s + k) % 2))); }
long double when(const DT &t) { return (long double)t.mjd().as_underlying_type() + (long double)t.sec().as_underlying_type() / 86400e6L; }
struct Sol { int s, sol; bool have[6]; };
MC_SCENARIO("requests", 2, 3) {
  using namespace dso::sinex; auto &f = shim_file(); f = ShimFile(); mc::Hash h;
  int n = 1 + c.choose(c.thorough() ? 4 : 3, "number of requests"); std::vector<int> req;
  for (int i = 0; i < n; i++) req.push_back(c.choose(4, "requested site"));
  static const std::vector<std::vector<int>> FS = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {0, 1}, {2, 0}, {1}, {}};
  std::vector<int> fs = FS[c.choose(7, "sites in the file")];
  bool strict = c.flip("missing site is an error");
  int how = c.thorough() ? c.choose(3, "call") : c.deviate(3, "call"), nsol = 1 + c.deviate(3, "solutions"), ord = c.deviate(6, "order of estimates");
  bool twopt = c.deviate(2, "two points of a site");
  std::vector<Sol> sols;
  for (int s : fs) {
    for (int p = 0; p < 1 + (twopt && s == fs[0]); p++) { SiteId id; std::snprintf(id.m_site_code, 5, "%s", ID[s]); std::snprintf(id.m_point_code, 3, " %c", 'A' + p); f.sites.push_back(id); }
    for (int q = 0; q < nsol; q++) sols.push_back({s, q, {1, 1, 1, 1, 1, 1}});
    if (twopt && s == fs[0]) sols.push_back({s, 3, {1, 1, 1, 1, 1, 1}});
  }
  for (auto &q : sols) for (int k = 0; k < 6; k++) {
    SolutionEstimate e; std::snprintf(e.m_param_type, 7, "%-6s", COMP[k]); std::snprintf(e.m_site_code, 5, "%s", ID[q.s]); std::snprintf(e.m_point_code, 3, " %c", q.sol == 3 ? 'B' : 'A'); std::snprintf(e.m_soln_id, 5, "%4d", q.sol == 3 ? 1 : q.sol + 1);
    std::snprintf(e.m_units, 5, "%-4s", k < 3 ? "m" : "m/y"); e.m_epoch = epoch(q.s, q.sol, k); e.m_estimate = val(q.s, q.sol, k); f.est.push_back(e);
  }
  // damage
  int bad = -1; bool ioerr = false;
  switch (fs.empty() ? 0 : c.deviate(6, "damage")) {
  case 1: case 2: case 3: { int w = c.choose((int)f.est.size(), "entry"), kind = c.choose(3, "damage kind"); bad = w / 6; if (kind == 0) f.est.erase(f.est.begin() + w); else std::snprintf(f.est[w].m_units, 5, "%-4s", kind == 1 ? "mm" : "s/y"); break; }
  case 4: f.site_error = ioerr = true; break;
  case 5: f.est_error = ioerr = true; break;
  }
  auto &E = f.est;
  switch (ord) {
  case 1: std::reverse(E.begin(), E.end()); break;
  case 2: std::stable_sort(E.begin(), E.end(), [](const SolutionEstimate &a, const SolutionEstimate &b) { return std::strcmp(a.m_param_type, b.m_param_type) < 0; }); break;
  case 3: std::stable_sort(E.begin(), E.end(), [](const SolutionEstimate &a, const SolutionEstimate &b) { return std::strcmp(a.m_soln_id, b.m_soln_id) > 0; }); break;
  case 4: if (E.size() > 7) std::rotate(E.begin(), E.begin() + 7, E.end()); break;
  case 5: std::stable_sort(E.begin(), E.end(), [](const SolutionEstimate &a, const SolutionEstimate &b) { int x = a.m_param_type[3] - b.m_param_type[3]; return x ? x < 0 : a.m_param_type[0] > b.m_param_type[0]; }); std::reverse(E.begin(), E.begin() + (E.size() / 2)); break;
  }
  static const long T[] = {59000, 55197, 51544, 40587}; static const long US[] = {0, 1, 43200000000L, 86399999999L}; int ti = c.choose(c.thorough() ? 4 : 2, "epoch");
  DT t(dso::modified_julian_day(T[ti]), dso::microseconds(US[ti]));
  std::vector<dso::BeaconCoordinates> out; int rc, cnt;
  auto poison = [&](size_t m) { out.resize(m); for (auto &o : out) { std::memset((void *)&o, 0x41, sizeof o); } };
  if (how == 0) {
    std::vector<std::unique_ptr<char[]>> ids; std::vector<char *> p; for (int r : req) { ids.emplace_back(new char[5]); std::memcpy(ids.back().get(), ID[r], 5); p.push_back(ids.back().get()); }
    out.resize(n); cnt = 77; rc = dso::extrapolate_sinex_coordinates("x.snx", p.data(), n, t, out.data(), cnt, strict);
    if (cnt < 0 || cnt > n) { c.fail("%d results for %d sites", cnt, n); return; }
    out.resize(cnt);
  } else {
    std::vector<dso::BeaconStation> b(n); for (int i = 0; i < n; i++) std::memcpy(b[i].m_station_id, ID[req[i]], 4);
    poison(c.deviate(2, "former results") * 6);
    if (how == 1) rc = dso::extrapolate_sinex_coordinates("x.snx", b, t, out, strict);
    else { dso::datetime<dso::nanoseconds> tn(t.mjd(), dso::nanoseconds(t.sec().as_underlying_type() * 1000)); rc = dso::extrapolate_sinex_coordinates("x.snx", b, tn, out, strict); }
    cnt = (int)out.size();
  }
  c.step();
  auto in = [&](int s) { return std::find(fs.begin(), fs.end(), s) != fs.end(); };
  // a site whose solution is damaged may be left out; one that is complete may not
  std::vector<int> want; bool missing = false, hurt = false;
  for (int r : req) { if (!in(r)) missing = true; else want.push_back(r); if (bad >= 0 && sols[bad].s == r) hurt = true; }
  h.i(rc != 0).i(cnt);
  if (ioerr) c.check(rc != 0, "unreadable SINEX file: status 0");
  else if (strict && missing) c.check(rc != 0, "a requested site is not in the file, missing sites are errors, status 0");
  else if (!hurt) c.check(rc == 0, "complete file: status %d (missing sites are %san error, %smissing)", rc, strict ? "" : "not ", missing ? "some " : "none ");
  if (rc == 0 || cnt) {
    size_t w = 0; int skipped = 0;
    for (int i = 0; i < cnt; i++) {
      auto &o = out[i]; c.check(o.id[4] == 0, "identifier of result %d is not terminated", i);
      while (w < want.size() && std::strncmp(o.id, ID[want[w]], 4)) { c.check((hurt && want[w] == sols[bad].s), "site %s left out", ID[want[w]]); ++w; skipped++; }
      if (w == want.size()) { c.fail("result %d is labelled \"%.4s\"", i, o.id); return; }
      int s = want[w++]; bool ok = false; std::string exp;
      for (size_t q = 0; q < sols.size(); q++) if (sols[q].s == s && (int)q != bad) {
        bool eq = true; double x[3] = {o.x, o.y, o.z};
        for (int k = 0; k < 3; k++) { long double dt = (when(t) - when(epoch(s, sols[q].sol, k))) / 365.25L, v = val(s, sols[q].sol, k) + val(s, sols[q].sol, k + 3) * dt; eq = eq && std::fabs((double)(x[k] - v)) < 1e-7; char b[40]; std::snprintf(b, 40, " %.7Lf", v); exp += b; }
        ok = ok || eq;
      }
      c.check(ok, "site %s at %.5Lf: (%.7f, %.7f, %.7f) instead of%s", ID[s], when(t), o.x, o.y, o.z, exp.c_str()); h.d(o.x).d(o.z);
    }
    if (rc == 0) for (; w < want.size(); w++) c.check(hurt && !strict && want[w] == sols[bad].s, "site %s is in the file, status 0, but it is left out", ID[want[w]]);
    if (rc == 0 && strict) c.check(cnt == n, "missing sites are errors, status 0, %d of %d sites", cnt, n);
  }
  c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("N01", "model_checking",
  "every request list (with repetitions and a site that is not in the file) x sites in the file (orders and subsets) x strictness x call form (identifier array, station vector, other time resolution) x epochs before and after the reference epochs, with deviations: several solutions of a site, two points of a site, orders of the estimates (reversed, by parameter, by solution, rotated, interleaved), damages (a component missing, wrong units, unreadable blocks), results left from an earlier call",
  "lists of up to 3 (quick) / 4 sites; 2 / 3 deviations",
  "the SINEX library is a stand-in that hands out a solution held in memory; where a site has several complete solutions, any of them is accepted as long as all components come from the same one; a site whose solution is damaged may be left out or reported")
