// B01: space-weather CSV files.
#include "mc.hpp"
#include "swgen.hpp"
#include <memory>
#include <unistd.h>
namespace {
using namespace dso::utils::celestrak::details; using sw::Flux;
bool decoded(int col) { return col == 0 || (col >= 12 && col <= 20) || (col >= 24 && col <= 29 && col != 26); }
void compare(mc::Ctx &c, const Flux &f, long first, int day, const char *what) {
  c.check(f.mjd_.as_underlying_type() == first + day, "%s: day %d holds the date of day %ld", what, day, f.mjd_.as_underlying_type() - first);
  for (int k = 0; k < 8; k++) c.check(f.ApIndexes[k] == sw::ap(day, k), "%s: day %d: Ap %d is %d instead of %d", what, day, k, f.ApIndexes[k], sw::ap(day, k));
  double g[6] = {f.f107Obs, f.f107Adj, f.f107ObsC81, f.f107ObsL81, f.f107AdjC81, f.ApDailyAverage}, e[6] = {sw::fl(day, 0), sw::fl(day, 1), sw::fl(day, 2), sw::fl(day, 3), sw::fl(day, 4), (double)sw::apavg(day)};
  for (int k = 0; k < 6; k++) c.check(std::fabs(g[k] - e[k]) < 1e-9, "%s: day %d: field %d is %.6g instead of %.6g", what, day, k, g[k], e[k]);
  c.check(!std::strncmp(f.flag, day % 2 ? "OBS" : "PRD", 5), "%s: day %d: qualifier \"%.4s\"", what, day, f.flag);
}
struct Row { std::string s; int day; bool datebad, bad; };
MC_SCENARIO("files", 1, 2) {
  static const long FIRST[] = {59577, 60366, 59761}; // year end, leap day, plain
  const long first = FIRST[c.choose(3, "first day")]; const int n = c.thorough() ? 7 : 5;
  std::vector<Row> R; for (int i = 0; i < n; i++) R.push_back({sw::join(sw::cols(first + i, i)), i, false, false});
  bool crlf = c.deviate(2, "line ends"); std::string eol = crlf ? "\r\n" : "\n"; int head = c.deviate(6, "header"); bool badhead = head >= 3;
  for (int k = 0; k < 2; k++) {
    int op = c.deviate(10, "body"); if (!op) break; int at = c.choose((int)R.size(), "row"); Row &r = R[at];
    if (r.bad && op != 1) c.skip();
    switch (op) {
    case 1: R.erase(R.begin() + at); break;
    case 2: { Row q = r; R.insert(R.begin() + at, q); break; }
    case 3: if (at + 1 >= (int)R.size()) c.skip(); std::swap(R[at], R[at + 1]); break;
    case 4: { // truncated: before every column, with and without the comma, and inside the date
      int w = c.choose(29 + 3, "cut"); if (r.day < 0) c.skip(); auto v = sw::cols(first + r.day, r.day); r.bad = true;
      if (w >= 29) { r.s = r.s.substr(0, w == 29 ? 4 : w == 30 ? 7 : 9); r.datebad = true; break; }
      v.resize(w + 1); std::string t = sw::join(v); if (w < 28 && c.flip("comma")) t += ","; r.s = t; break; }
    case 5: { // garbage in any column; columns that are not decoded must not matter
      int w = c.choose(31, "column"); if (r.day < 0) c.skip(); auto v = sw::cols(first + r.day, r.day); static const char *G[] = {"", "x1", "1x"}; int g = c.choose(3, "garbage");
      if (w == 26) { static const char *Q[] = {"", "OB", "OBSX"}; v[w] = Q[g]; r.bad = true; } else if (w == 0) { static const char *D[] = {"2021/12/2x", "2021-13-01", "2022-02-30"}; v[w] = D[g]; r.bad = r.datebad = true; } else { v[w] = G[g]; if (decoded(w)) r.bad = true; }
      r.s = sw::join(v); break; }
    case 6: R.insert(R.begin() + at, {c.flip("blanks") ? "     " : "", -1, true, true}); break;
    case 7: r.s += "," + std::string(420, '9'); r.bad = r.datebad = true; break; // longer than the reader's buffer
    case 8: R.insert(R.begin() + at, {"2030-01-01,2777,1,,,,,,,,,,,,,,,,,,,,,,110,108.5,90.1,PRM,91.2,93.3,94.4,95.5", -1, false, true}); break; // a monthly prediction
    case 9: { auto v = r.day < 0 ? std::vector<std::string>{} : sw::cols(first + r.day, r.day); if (v.empty()) c.skip(); v.push_back("extra"); r.s = sw::join(v); break; }
    }
  }
  static const char *HX[] = {"", " ", ",F_NEW", "", "", ""}; std::string txt = std::string(sw::HEAD) + HX[head] + eol;
  if (head == 3) txt = ""; else if (head == 4) txt = "time,f107,ap" + eol; else if (head == 5) txt = eol;
  for (auto &r : R) txt += r.s + eol;
  if (c.deviate(2, "final newline") && R.size()) txt.resize(txt.size() - eol.size());
  int mid = c.choose(n + 2, "day") - 1, bef = c.choose(c.thorough() ? 5 : 4, "before"), aft = c.choose(3, "after");
  std::string fn = std::string(c.scratch()) + "/sw.csv"; mc::write_file(fn.c_str(), txt);
  // what the file says: the rows must be found one after the other, after nothing that is unreadable
  auto truth = [&](int from, int to, bool &mustfail, bool &mustpass) {
    mustfail = badhead; mustpass = !badhead; size_t at = R.size(); for (size_t i = 0; i < R.size(); i++) if (R[i].day == from && !R[i].datebad) { at = i; break; }
    for (int d = from; d <= to; d++) { bool ok = false; for (auto &r : R) if (r.day == d && !r.bad) ok = true; if (!ok) mustfail = true; }
    for (size_t i = 0; i < at && i < R.size(); i++) if (R[i].datebad || R[i].day < 0 || R[i].day >= from) mustpass = false;
    for (int d = from; d <= to; d++) { size_t i = at + (d - from); if (i >= R.size() || R[i].day != d || R[i].bad) mustpass = false; }
    if (at < R.size() && !mustpass && !mustfail) { // is the consecutive run broken?
      bool run = true; for (int d = from; d <= to; d++) { size_t i = at + (d - from); if (i >= R.size() || R[i].day != d || R[i].bad) run = false; } if (!run) { bool dup = false; for (int d = from; d <= to; d++) { int k = 0; for (auto &r : R) k += r.day == d; if (k > 1) dup = true; } if (!dup) mustfail = true; }
    }
  };
  int N = bef + 1 + aft; std::unique_ptr<Flux[]> a(new Flux[N + 1]); std::ifstream::pos_type pos = 0; bool mf, mp; truth(mid - bef, mid + aft, mf, mp);
  if (c.flip("poison")) for (int i = 0; i < N; i++) { std::memset((void *)&a[i], 0x55, offsetof(Flux, flag)); }
  mc::dirty_stack('7');
  int rc = parse_csv_for_date(dso::modified_julian_day(first + mid), fn.c_str(), a.get(), pos, bef, aft); c.step();
  c.check(!(mf && !rc), "days %d..%d: accepted although absent, broken or in a foreign file\n%s", mid - bef, mid + aft, txt.c_str());
  c.check(!(mp && rc), "days %d..%d: refused (%d)\n%s", mid - bef, mid + aft, rc, txt.c_str());
  mc::Hash h; h.i(rc).i(mid).i(bef).i(aft);
  if (!rc) {
    for (int i = 0; i < N; i++) compare(c, a[i], first, mid - bef + i, "window");
    // next-day retrieval, as long as it goes, against a fresh read
    for (int t = mid + aft + 1; t < mid + aft + 4; t++) {
      Flux f; std::ifstream::pos_type p0 = 0; int r0 = parse_csv_for_date(dso::modified_julian_day(first + t), fn.c_str(), &f, p0, 0, 0);
      std::vector<Flux> old(a.get(), a.get() + N);
      int r1 = get_next(dso::modified_julian_day(first + t), fn.c_str(), a.get(), N, pos); c.step();
      bool m2, p2; truth(t, t, m2, p2);
      c.check(!(m2 && !r1) && !(p2 && r1), "next day %d: status %d\n%s", t, r1, txt.c_str());
      if (p2) c.check((r0 != 0) == (r1 != 0), "next day %d: status %d, fresh read %d\n%s", t, r1, r0, txt.c_str());
      h.i(r1);
      if (r1) { for (int i = 0; i < N; i++) c.check(a[i].mjd_ == old[i].mjd_, "a failed retrieval changed the window"); break; }
      for (int i = 0; i < N; i++) compare(c, a[i], first, t - N + 1 + i, "after next day");
    }
  }
  c.state(h.h); c.outcome(h.h); ::unlink(fn.c_str());
}
// the position left by any read serves any later read
MC_SCENARIO("positions", 0, 0) {
  const long first = 59577; const int n = 8; std::string txt = std::string(sw::HEAD) + "\n"; for (int i = 0; i < n; i++) txt += sw::join(sw::cols(first + i, i)) + "\n"; if (c.flip("no final newline")) txt.pop_back();
  std::string fn = std::string(c.scratch()) + "/sw.csv"; mc::write_file(fn.c_str(), txt);
  std::ifstream::pos_type pos = 0; mc::Hash h; int D = c.thorough() ? 4 : 3;
  for (int k = 0; k < D; k++) {
    int t = c.choose(n + 2, "day") - 1, b = c.choose(3, "before"); Flux f[3]; bool ok = t - b >= 0 && t < n;
    int rc = parse_csv_for_date(dso::modified_julian_day(first + t), fn.c_str(), f, pos, b, 0); c.step();
    c.check((rc == 0) == ok, "read %d: days %d..%d gave %d", k, t - b, t, rc); h.i(rc).i((long)pos);
    if (!rc) for (int i = 0; i <= b; i++) compare(c, f[i], first, t - b + i, "window");
  }
  c.state(h.h); c.outcome(h.h); ::unlink(fn.c_str());
}
MC_SCENARIO("no-file", 0, 0) {
  int k = c.choose(3, "case"); std::string fn = std::string(c.scratch()) + "/none.csv"; if (k == 1) mc::write_file(fn.c_str(), ""); if (k == 2) mc::write_file(fn.c_str(), std::string(sw::HEAD) + "\n");
  Flux f[4]; std::ifstream::pos_type pos = 0; int rc = parse_csv_for_date(dso::modified_julian_day(59577), fn.c_str(), f, pos, 3, 0); c.check(rc != 0, "case %d accepted", k); ::unlink(fn.c_str()); c.step(); c.state(k); c.outcome(rc);
}
// single records, in buffers of their own
MC_SCENARIO("records", 0, 0) {
  int day = c.choose(3, "day"); auto v = sw::cols(59577 + day, day); std::string s = sw::join(v); int cut = c.choose((int)s.size() + 1, "length"); std::unique_ptr<char[]> b(new char[cut + 1]); std::memcpy(b.get(), s.c_str(), cut); b[cut] = 0;
  Flux f; dso::modified_julian_day m; int r1 = resolve_csv_line_records(b.get(), f), r2 = resolve_csv_line_date(b.get(), m); c.step();
  size_t need = 0; for (int k = 0; k < 30; k++) need += v[k].size() + 1; // up to and with the comma after the last decoded column
  c.check((r2 == 0) == (cut >= 10), "date of \"%s\": status %d", b.get(), r2);
  if (!r2) c.check(m.as_underlying_type() == 59577 + day, "date of \"%s\"", b.get());
  if (cut < (int)need - 1) c.check(r1 != 0, "record \"%s\" accepted", b.get()); // a missing column
  if (cut >= (int)need + 1) c.check(r1 == 0, "record \"%s\" refused with %d", b.get(), r1);
  if (!r1) compare(c, f, 59577, day, "record");
  c.state(cut * 4 + day); c.outcome(r1);
}
} // namespace
MC_PROPERTY("B01", "model_checking",
  "every file over three first days (year end, leap day), rows with every field distinct, header and line-end forms, up to the stated number of deviations (row missing, repeated, swapped, cut at every column, empty or garbage text in any of the 31 columns, impossible dates, blank and over-long lines, monthly predictions, extra columns, no final newline), every window around every day in and next to the file, then next-day retrievals; every sequence of reads reusing the file position; every truncation of single records in exactly sized buffers",
  "five rows and 1 deviation (quick) / seven and 2; position histories of 3 / 4 reads",
  "the date conversion comes from a stand-in for the external datetime library",
  "damage that lies before the requested days, or repeated days, may be refused or passed over; what follows the requested days must not matter")
