// T01: beacon height tables.
#include "mc.hpp"
#include "beacon_tbl.hpp"
#include <cerrno>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
using DT = dso::datetime<dso::nanoseconds>;
// the instants records may begin and end at, as text and as epochs
struct Inst { const char *s; long mjd; long sec; };
const Inst I[] = {{"2019-12-31 23:59:59", 58848, 86399}, {"2020-01-01 00:00:00", 58849, 0}, {"2020-01-01 00:00:01", 58849, 1}, {"2020-03-01 12:30:00", 58909, 45000}, {"9999-12-31 23:59:59", 0, 0}};
DT ep(int i) { if (i == 4) return DT(dso::year(9999), dso::month(12), dso::day_of_month(31), dso::nanoseconds(86399L * 1000000000L)); return DT(dso::modified_julian_day(I[i].mjd), dso::nanoseconds(I[i].sec * 1000000000L)); }
struct Rec { int a, b; double h; char id[5]; int bad; };
std::string line(const Rec &r) { char b[200]; snprintf(b, sizeof b, "%.4s %s %s %9.6f", r.id, I[r.a].s, I[r.b].s, r.h); return b; }
MC_SCENARIO("tables", 2, 3) {
  static const int IV[][2] = {{0, 3}, {1, 2}, {1, 4}, {2, 3}, {3, 4}, {0, 1}, {2, 2}, {3, 1}};
  int n = c.choose(c.thorough() ? 4 : 3, "records"); std::vector<Rec> R;
  for (int i = 0; i < n; i++) { int k = c.choose(i < 2 ? 8 : 4, "interval"); Rec r{IV[k][0], IV[k][1], 0, {}, 0}; r.h = (i % 2 ? -1 : 1) * (0.5 + i * 1.25); snprintf(r.id, 5, "%c%cA%c", 'A' + i, 'B' + i, i == 1 ? 'A' : 'B'); R.push_back(r); }
  std::vector<std::string> L; for (auto &r : R) L.push_back(line(r));
  std::string extra; bool mustfail = false, unsure = false;
  int at = -1;
  switch (c.deviate(11, "damage")) {
  case 0: break;
  case 1: if (!n) c.skip(); at = c.choose(n, "record"); { static const int CUT[] = {3, 5, 10, 23, 24, 34, 43, 44, 45}; L[at] = L[at].substr(0, CUT[c.choose(9, "cut")]); mustfail = true; } break;
  case 2: if (!n) c.skip(); at = c.choose(n, "record"); { static const int F[] = {5, 8, 11, 24, 27, 30, 45}; int f = c.choose(7, "field"); L[at].replace(F[f], f == 6 ? std::string::npos : 2, f == 6 ? " abc" : "xx"); mustfail = true; } break;
  case 3: if (!n) c.skip(); at = c.choose(n, "record"); L[at].replace(8, 2, "13"); mustfail = true; break; // month 13
  case 4: if (!n) c.skip(); at = c.choose(n, "record"); L[at] = L[at].substr(0, 45) + "1e999"; mustfail = true; break;
  case 5: if (!n) c.skip(); at = c.choose(n, "record"); L[at] += c.flip("long") ? std::string(250, ' ') : "   comment"; if (L[at].size() > 254) unsure = true; break;
  case 6: L.insert(L.begin() + c.choose(n + 1, "at"), c.flip("blanks") ? "   " : ""); unsure = false; at = -2; break; // a blank line is never a record
  case 7: if (!n) c.skip(); at = c.choose(n, "record"); L[at] = L[at].substr(0, 45) + "   7.25"; R[at].h = 7.25; break;
  case 8: if (!n) c.skip(); at = c.choose(n, "record"); L[at] = L[at].substr(0, 45) + "-0.125000"; R[at].h = -0.125; break;
  case 9: if (!n) c.skip(); at = c.choose(n, "record"); L[at] = L[at].substr(0, 45); mustfail = true; L[at] += "         "; break;
  case 10: if (!n) c.skip(); at = c.choose(n, "record"); L[at].replace(43 - 2, 2, "99"); mustfail = true; break; // second 99
  }
  std::string eol = c.deviate(2, "line ends") ? "\r\n" : "\n", txt;
  int hd = c.deviate(3, "header");
  txt = (hd == 0 ? "Site From                To                  Height" : hd == 1 ? "" : "AAAA 2019-12-31 23:59:59 9999-12-31 23:59:59  1.000000") + eol;
  for (auto &l : L) txt += l + eol;
  if (n && c.deviate(2, "final newline")) txt.resize(txt.size() - eol.size());
  // the epoch: each bound, and a nanosecond to both sides
  int e = c.choose(4, "epoch"), off = c.choose(3, "offset") - 1; DT t = ep(e); long ns = I[e].sec * 1000000000L + off; long m = I[e].mjd; if (ns < 0) { ns += 86400000000000L; --m; } t = DT(dso::modified_julian_day(m), dso::nanoseconds(ns));
  long tn = m * 0 + ns; (void)tn;
  std::string fn = std::string(c.scratch()) + "/b.tbl"; mc::write_file(fn.c_str(), txt);
  static const int ERR[] = {0, ERANGE, EINVAL};
  int dirty = c.choose(3, "errno before");
  errno = ERR[dirty]; mc::dirty_stack(0x20);
  bool threw = false; std::vector<dso::BeaconInformationTableEntry> v;
  dso::BeaconInformationTable tab(fn.c_str());
  errno = ERR[dirty];
  try { v = tab.load_to_memmory(t); } catch (std::exception &) { threw = true; }
  c.step();
  auto before = [&](const Inst &x, long a, long b) { (void)x; (void)a; (void)b; return false; };
  (void)before;
  auto le = [&](int i) { DT q = ep(i); return t >= q; };
  std::vector<const Rec *> want; for (auto &r : R) if (le(r.a) && !le(r.b)) want.push_back(&r);
  c.note("%zu expected, %zu loaded, threw %d\n%s", want.size(), v.size(), threw, txt.c_str());
  if (mustfail) c.check(threw, "a malformed record raised no error\n%s", txt.c_str());
  else if (at != -2 && !unsure) c.check(!threw, "refused\n%s", txt.c_str());
  if (!threw) {
    c.check(v.size() == want.size(), "%zu records instead of %zu\n%s", v.size(), want.size(), txt.c_str());
    for (size_t i = 0; i < v.size(); i++) {
      c.check(!std::memcmp(v[i]._4charid, want[i]->id, 4), "record %zu: identifier %.4s instead of %s", i, v[i]._4charid, want[i]->id);
      c.check(mc::close(v[i]._height, want[i]->h, 1e-12), "record %zu: height %.9g instead of %.9g", i, v[i]._height, want[i]->h);
      c.check(v[i].from == ep(want[i]->a) && v[i].to == ep(want[i]->b), "record %zu: interval", i);
    }
  }
  mc::Hash h; h.i(threw).i(v.size()).i(e).i(off); for (auto &x : v) h.q(x._height); c.state(h.h); c.outcome(h.h);
  // a second load from the same object gives the same
  if (!threw) { errno = EDOM; auto w = tab.load_to_memmory(t); c.check(w.size() == v.size(), "a second load differs"); }
  ::unlink(fn.c_str());
}
MC_SCENARIO("files", 0, 0) {
  int k = c.choose(4, "case"); std::string fn = std::string(c.scratch()) + "/" + std::string(k == 3 ? 220 : 3, 'x');
  if (k == 1) mc::write_file(fn.c_str(), "");
  if (k == 2) mc::write_file(fn.c_str(), "header only\n");
  if (k == 3) { // a long path
    fn = c.scratch(); for (int i = 0; i < 3; i++) fn += "/."; fn += "/" + std::string(120, 'p'); std::string d = c.scratch(); fn = d; while (fn.size() < 300) fn += "/."; fn += "/tbl"; mc::write_file(fn.c_str(), "h\nABCD 2019-12-31 23:59:59 9999-12-31 23:59:59  1.000000\n"); }
  bool threw = false; size_t n = 99; try { dso::BeaconInformationTable t(fn.c_str()); n = t.load_to_memmory(ep(3)).size(); } catch (std::exception &) { threw = true; }
  c.check(threw == (k == 0), "case %d: threw %d", k, threw);
  if (!threw) c.check(n == (k == 3 ? 1u : 0u), "case %d: %zu records", k, n);
  ::unlink(fn.c_str()); c.step(); c.state(k); c.outcome(n);
}
} // namespace
MC_PROPERTY("T01", "model_checking",
  "every table of bounded size over interval patterns (adjacent, overlapping, empty, reversed, open-ended), damages of any record (cut at any column, garbage in any field, impossible dates, overflow, trailing text), line ends, header forms, missing final newline; every epoch at each bound and one nanosecond to either side; three error states left by earlier calls",
  "0..2 records and 2 deviations (quick) / 0..3 and 3",
  "dates are parsed by a stand-in for the external datetime library, which throws on malformed dates",
  "a blank line may be skipped or refused; an over-long line may be read or refused")
