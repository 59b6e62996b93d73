// D01: observation codes, carriers, beacon records, antenna types.
#include "mc.hpp"
#include "doris_system_info.hpp"
#include "doris_observation_equations.hpp"
#include <cerrno>
#include <memory>
#include <string>
namespace {
using OT = dso::ObservationType;
const char CH[] = "LCWFPTH";
MC_SCENARIO("types", 0, 0) {
  int ch = c.choose(256, "character"); int want = -1; for (int i = 0; i < 7; i++) if (CH[i] == (char)ch) want = i;
  int got = -1; try { got = (int)dso::char_to_observationType((char)ch); } catch (std::exception &) {}
  c.check(got == want, "character %d gives type %d instead of %d", ch, got, want);
  if (got >= 0) c.check(dso::ObservationType_to_char((OT)got) == (char)ch, "type %d does not convert back to its character", got);
  int t = (int)(int8_t)ch; char r = 0; bool thr = false; try { r = dso::ObservationType_to_char((OT)t); } catch (std::exception &) { thr = true; }
  c.check(thr == (t < 0 || t > 6) && (thr || r == CH[t]), "type %d gives character %d", t, r);
  c.check(dso::observationType_has_frequency((OT)t) == (t >= 0 && t <= 2), "type %d: wrong carrier requirement", t);
  c.step(); c.state(ch); c.outcome(got + 10);
}
MC_SCENARIO("codes", 0, 0) {
  int t = c.choose(7, "type"), f = c.choose(256, "frequency") - 128; bool need = t <= 2, thr = false;
  char b[3] = {'#', '#', '#'};
  try {
    dso::ObservationCode k((OT)t, (int_fast8_t)f);
    int w = need ? f : 0;
    c.check(k.m_freq == w && k.type() == (OT)t && k.has_frequency() == need, "code (%d,%d) holds (%d,%d)", t, f, (int)k.type(), k.m_freq);
    c.check(k.to_str(b) == b, "to_str returned something else");
    c.check(b[0] == CH[t] && b[1] == '0' + w && b[2] == 0, "code (%d,%d) is written \"%c%c\"", t, f, b[0], b[1]);
    dso::ObservationCode q(dso::char_to_observationType(b[0]), b[1] - '0');
    c.check(q == k && !(q != k), "code does not parse back to itself");
    for (int t2 = 0; t2 < 7; t2++) for (int f2 = (t2 <= 2 ? 1 : 0); f2 <= (t2 <= 2 ? 2 : 0); f2++) { dso::ObservationCode o((OT)t2, f2); bool eq = t2 == t && f2 == w; c.check((o == k) == eq && (o != k) == !eq, "comparison of (%d,%d) and (%d,%d)", t, w, t2, f2); }
  } catch (std::runtime_error &) { thr = true; }
  c.check(thr == (need && (f < 1 || f > 2)), "code (%d,%d): %s", t, f, thr ? "refused" : "accepted");
  c.step(); mc::Hash h; h.i(t).i(f); c.state(h.h); c.outcome(thr * 8 + t);
}
MC_SCENARIO("frequencies", 0, 0) {
  int blk = c.choose(64, "block"); int n = c.thorough() ? 1024 : 64; mc::Hash h; h.i(blk);
  for (int i = 0; i < n; i++) {
    int k = (blk - 32) * n + i; double s = NAN, u = NAN; int rc = dso::beacon_nominal_frequency(k, s, u);
    long double f = 5e6L * (0.75L + 87.0L * k / (5.0L * 67108864.0L));
    c.check(rc == 0 && std::fabs((double)(s - 543 * f)) < 1e-5 && std::fabs((double)(u - 107 * f)) < 2e-6, "shift factor %d: %.6f and %.6f Hz instead of %.6Lf and %.6Lf", k, s, u, 543 * f, 107 * f);
  }
  c.evals(n); c.step(); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("stations", 2, 3) {
  static const char *CODE[] = {"D01", "D35", "D99"}, *ID[] = {"COBB", "THUA", "KRWC", "A12B", "ZZZX", "abcb"}, *DOM[] = {"49804S004", "1", "000000000", "43001S005X"};
  static const char *NAME[] = {"COLD BAY", "X", "ST. JOHN'S", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123", "ABCDEFGHIJKLMNOPQRSTUVWXYZ012", "Y Z", " LEADING", "TWO  BLANKS"};
  static const int K[] = {0, 1, -1, 10, -15, 99, -30, 327, -999};
  const char *code = CODE[c.choose(3, "code")], *id = ID[c.choose(6, "identifier")]; std::string name = NAME[c.choose(8, "name")], dom = DOM[c.choose(4, "domes")];
  int type = 1 + c.choose(3, "type"), k = K[c.choose(9, "shift factor")], lay = c.deviate(3, "layout");
  char b[200]; snprintf(b, sizeof b, "%-3s  %-4s %-30s%-10s", code, id, name.c_str(), dom.c_str());
  char t[40]; snprintf(t, sizeof t, lay == 0 ? "%1d %4d" : lay == 1 ? "%2d%4d" : "%1d%5d", type, k); std::string line = std::string(b) + t;
  line.resize(60, ' '); 
  int tail = c.deviate(3, "label"); line += tail == 0 ? "STATION REFERENCE   " : tail == 1 ? "STATION REFERENCE" : "";
  bool bad = false;
  switch (c.deviate(8, "damage")) {
  case 1: line.resize(c.choose(60, "length")); bad = true; break;
  case 2: line[50] = line[51] = ' '; bad = true; break;
  case 3: line[50] = 'x'; line[51] = ' '; bad = true; break;
  case 4: line.replace(52, 8, "        "); bad = true; break;
  case 5: line.replace(52, 8, "  K     "); bad = true; break;
  case 6: line.replace(50, 10, "          "); bad = true; break;
  case 7: line.replace(50, 10, "99999999999999999999"); bad = true; break;
  }
  std::unique_ptr<dso::BeaconStation> s(new dso::BeaconStation); static const int POI[] = {0xFF, 0x41}; std::memset((void *)s.get(), POI[c.choose(2, "former contents")], sizeof *s);
  std::unique_ptr<char[]> lb(new char[line.size() + 1]); std::memcpy(lb.get(), line.c_str(), line.size() + 1);
  static const int ERR[] = {0, ERANGE, EINVAL}; errno = ERR[c.deviate(3, "errno before")];
  int rc = s->set_from_rinex_line(lb.get()); c.step();
  c.check((rc != 0) == bad, "[%s]: status %d", line.c_str(), rc);
  mc::Hash h; h.i(rc);
  if (!rc) {
    h.bytes(s->m_station_id, 4); h.i(s->m_shift_factor);
    c.check(!std::memcmp(s->m_internal_code, code, 3) && !std::memcmp(s->m_station_id, id, 4), "[%s]: code %.3s identifier %.4s", line.c_str(), s->m_internal_code, s->m_station_id);
    c.check(std::string(s->m_station_name, strnlen(s->m_station_name, 30)) == name, "[%s]: name \"%.30s\"", line.c_str(), s->m_station_name);
    c.check(std::string(s->m_station_domes, strnlen(s->m_station_domes, 10)) == dom, "[%s]: DOMES \"%.10s\"", line.c_str(), s->m_station_domes);
    c.check(s->m_type == type && s->m_shift_factor == k, "[%s]: type %d factor %d", line.c_str(), (int)s->m_type, s->m_shift_factor);
    std::unique_ptr<char[]> out(new char[53]); char *p = s->to_str(out.get());
    c.check(p == out.get() && std::string(p) == std::string("[") + code + "/" + id + "_" + dom.substr(0, 9) + "](" + name + ")", "[%s]: written as \"%s\"", line.c_str(), p);
    char l = id[3]; int at = -1; try { at = (int)s->type(); } catch (std::runtime_error &) {}
    c.check(at == (l == 'A' ? 0 : l == 'B' ? 1 : l == 'C' ? 2 : -1), "identifier %s: antenna type %d", id, at);
    if (at >= 0) {
      double g = (2036.25 / 401.25) * (2036.25 / 401.25), h1 = at == 0 ? 510 : 487, h2 = at == 0 ? 335 : 0, w = (g * h1 - h2) / (g - 1) * 1e-3;
      mc::dirty_stack(0xFF);
      Eigen::Matrix<double, 3, 1> v = s->iono_free_phase_center();
      c.check(v(0) == 0 && v(1) == 0 && mc::close(v(2), w, 1e-13), "identifier %s: ionosphere-free phase centre (%g,%g,%.12g) instead of %.12g", id, v(0), v(1), v(2), w);
    }
  }
  c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("iono-correction", 0, 0) {
  static const double V[] = {0, 1, -1, 0.001, 12345.678, -98765.4321, 1e9, -3.3e8, 5e-7}; double a = V[c.choose(9, "L1")], b = V[c.choose(9, "L2")];
  long double q = 2036.25L / 401.25L, g = q * q, w = (a - q * b) / (g - 1);
  double r = dso::carrier_iono_correction(a, b); c.step();
  c.check(std::fabs((double)(r - w)) <= 1e-13 * (std::fabs(a) + 6 * std::fabs(b)), "correction of (%g,%g): %.15g instead of %.15Lg", a, b, r, w);
  // a purely dispersive pair is corrected to zero on the first carrier: L1 = -d/f1, L2 = -d/f2 (cycles)
  long double d = a; double l1 = (double)(-d / q), l2 = (double)-d; double cr = dso::carrier_iono_correction(l1, l2);
  c.check(std::fabs(cr + l1) <= 1e-12 * std::fabs(a), "a purely ionospheric pair leaves %g", cr + l1);
  mc::Hash h; h.d(r); c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("D01", "model_checking",
  "every character and type value; every (type, carrier number) with its text form; every shift factor in the range; every station record over codes, identifiers (all antenna letters), names up to the full field, DOMES numbers, types, factors, layouts of the numeric columns, damages (every truncation, blank or garbage fields) and prior error states, on poisoned instances; ionospheric combinations over a grid",
  "complete over characters, types and carriers; factors -2048..2047 (quick) / -32768..32767; 2 / 3 deviations for records",
  "type occupies columns 51-52 and the shift factor the columns after it; an antenna letter other than A, B, C is refused by type() and the phase centre is not asked for")
