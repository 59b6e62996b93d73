// R03: look-ups and corrected epochs of a RINEX.
#include "mc.hpp"
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
#include <algorithm>
#include <unistd.h>
using namespace rnx;
namespace {
using DT = dso::datetime<dso::nanoseconds>;
struct F { std::string name; ~F() { ::unlink(name.c_str()); } };
const std::vector<std::string> ALL{"L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"};
MC_SCENARIO("stations", 0, 0) {
  static const char *IN[] = {"D01", "D02", "D10", "D11", "D12", "D21"}; static const char *ID[] = {"ADHC", "ADHB", "ADGB", "AMVB", "BDHC", "DHCA"};
  int n = 1 + c.choose(c.thorough() ? 4 : 3, "stations"); Header H; H.st.clear(); H.refs.clear(); std::vector<int> ui, ud;
  for (int i = 0; i < n; i++) { int a = c.choose(6, "number"), b = c.choose(6, "identifier"); if (std::find(ui.begin(), ui.end(), a) != ui.end() || std::find(ud.begin(), ud.end(), b) != ud.end()) c.skip(); ui.push_back(a); ud.push_back(b); H.st.push_back({IN[a], ID[b], "NAME " + std::string(1, 'A' + i), "1234" + std::to_string(i), 1 + i % 3, (i % 2 ? -1 : 1) * (i * 3 + 1)}); }
  F fl{std::string(c.scratch()) + "/s.rnx"}; mc::write_file(fl.name.c_str(), H.text()); dso::DorisObsRinex r(fl.name.c_str());
  for (int k = 0; k < 6; k++) {
    int w = -1, v = -1; for (int i = 0; i < n; i++) { if (ui[i] == k) w = i; if (ud[i] == k) v = i; }
    std::string a = std::string(IN[k]) + "XYZ", b = std::string(ID[k]) + "QQ"; // keys are not null-terminated
    const char *p = r.beacon_internal_id2id(a.c_str()); c.step(4);
    c.check((p != nullptr) == (w >= 0), "internal number %s %s", IN[k], p ? "found" : "not found"); if (p) c.check(!strncmp(p, ID[ud[w]], 4), "%s maps to %.4s instead of %s", IN[k], p, ID[ud[w]]);
    const char *q = r.beacon_id2internal_id(b.c_str()); c.check((q != nullptr) == (v >= 0), "identifier %s %s", ID[k], q ? "found" : "not found"); if (q) c.check(!strncmp(q, IN[ui[v]], 3), "%s maps to %.3s instead of %s", ID[k], q, IN[ui[v]]);
    auto s = r.beacon_internal_id2BeaconStation(a.c_str()); c.check((s != r.stations().cend()) == (w >= 0), "record of %s", IN[k]); if (w >= 0) c.check(s - r.stations().cbegin() == w && s->m_shift_factor == H.st[w].k, "%s maps to record %ld", IN[k], (long)(s - r.stations().cbegin()));
    int kk = 12345, st = r.beacon_shift_factor(a.c_str(), kk); c.check((st == 0) == (w >= 0), "shift factor of %s: status %d", IN[k], st); if (w >= 0) c.check(kk == H.st[w].k, "shift factor of %s is %d instead of %d", IN[k], kk, H.st[w].k);
  }
  mc::Hash h; for (int i : ui) h.i(i); for (int i : ud) h.i(i); c.state(h.h); c.outcome(n);
}
MC_SCENARIO("observables", 0, 0) {
  int n = 1 + c.choose(c.thorough() ? 5 : 4, "count"); Header H; H.codes.clear(); int used = 0; for (int i = 0; i < n; i++) { int k = c.choose(10, "code"); if (used >> k & 1) c.skip(); used |= 1 << k; H.codes.push_back(ALL[k]); }
  F fl{std::string(c.scratch()) + "/o.rnx"}; mc::write_file(fl.name.c_str(), H.text()); dso::DorisObsRinex r(fl.name.c_str());
  for (auto &s : ALL) { auto it = std::find(H.codes.begin(), H.codes.end(), s); int want = it == H.codes.end() ? -1 : it - H.codes.begin(); dso::ObservationCode oc(dso::char_to_observationType(s[0]), s.size() > 1 ? s[1] - '0' : 0); int got = r.get_observation_code_index(oc); c.step(); c.check(got == want, "%s is at %d instead of %d", s.c_str(), got, want); }
  mc::Hash h; for (auto &s : H.codes) h.s(s.c_str()); c.state(h.h); c.outcome(used);
}
// beacons of a block
MC_SCENARIO("beacons of a block", 0, 0) {
  static const char *IN[] = {"D01", "D02", "D10", "D11", "D12"}; int n = c.choose(4, "beacons"); Header H; H.codes = {"L1", "F"}; Block b; b.t = {2020, 1, 1, 0, 0, 0}; b.has_off = true; b.off = 1; b.flag = b.cflag = 0; b.has_cflag = true; std::vector<int> u;
  for (int i = 0; i < n; i++) { int k = c.choose(5, "beacon"); u.push_back(k); b.b.push_back({IN[k], {{Val::NUM, 1.5 + i, ' ', ' '}, {Val::NUM, 2, ' ', ' '}}}); }
  F fl{std::string(c.scratch()) + "/k.rnx"}; std::string t = H.text(); for (auto &s : lines(b)) t += s + "\n"; mc::write_file(fl.name.c_str(), t); dso::DorisObsRinex r(fl.name.c_str()); dso::RinexDataBlockIterator it(&r); c.check(it.next() == 0, "block"); c.step();
  for (int k = 0; k < 5; k++) { long w = std::find(u.begin(), u.end(), k) - u.begin(); std::string key = std::string(IN[k]) + "zz"; long g = it.contains_beacon(key.c_str()) - it.cblock.begin(); c.check(g == w, "%s is at %ld instead of %ld of %d", IN[k], g, w, n); }
  mc::Hash h; for (int i : u) h.i(i); c.state(h.h); c.outcome(n);
}
MC_SCENARIO("epochs", 0, 0) {
  // instants as (MJD, ns of day); offsets in ns; carrier offsets in ns
  static const struct { long mjd; Date d; long ns; } T[] = {{58849, {2020, 1, 1, 0, 0, 0.0}, 0}, {58849, {2020, 1, 1, 0, 0, 0.000000001}, 1}, {58849, {2020, 1, 1, 12, 0, 3.279947801}, 43203279947801L}, {58849, {2020, 1, 1, 23, 59, 59.999999999}, 86399999999999L}, {58908, {2020, 2, 29, 0, 0, 2.0}, 2000000000L}, {59214, {2020, 12, 31, 23, 59, 57.567158713}, 86397567158713L}, {59214, {2020, 12, 31, 23, 59, 57.6}, 86397600000000L}};
  static const long OFF[] = {0, 1, -1, 123, -123, 999999999, -999999999, 4432841287, -4432841287, 2432841287, 7, 29, 57, 58, 113, 115, -4432841286, 1000000001, -2000000001, 999999999999}; // decimals that truncation would lose
  static const long L21[] = {0, 2015, -2015, 1, -1, 4003, 4035, 1001, 999, 8190, 2000000, -4003};
  int t = c.choose(7, "epoch"), o = c.choose(21, "clock offset") - 1, l = c.choose(c.thorough() ? 12 : 12, "carrier offset"), rcv = c.choose(3, "applied") - 1; bool noflag = c.flip("flag");
  Header H; H.codes = {"L1"}; H.has_l21 = true; H.l21 = L21[l] * 1e-3; H.rcv = rcv;
  Block b; b.t = T[t].d; b.has_off = o >= 0; b.off = o >= 0 ? OFF[o] * 1e-9 : 0; b.flag = 0; b.cflag = 1; b.has_cflag = !noflag;
  F fl{std::string(c.scratch()) + "/e.rnx"}; std::string txt = H.text(); for (auto &s : lines(b)) txt += s + "\n"; mc::write_file(fl.name.c_str(), txt); dso::DorisObsRinex r(fl.name.c_str()); dso::RinexDataBlockIterator it(&r); c.check(it.next() == 0, "block\n%s", txt.c_str());
  auto at = [&](long add) { long m = T[t].mjd, n = T[t].ns + add; const long D = 86400000000000L; while (n < 0) { n += D; m--; } while (n >= D) { n -= D; m++; } return DT(dso::modified_julian_day(m), dso::nanoseconds(n)); };
  long off = o < 0 ? 0 : OFF[o], cor = rcv == 1 ? 0 : off; c.step(5);
  auto show = [](const DT &x) { return (double)x.as_mjd(); };
  c.check(it.proper_time() == at(0), "receiver epoch");
  DT a = it.corrected_l1_epoch(), tl2, b1 = it.corrected_l1_epoch(tl2); const dso::RinexDataBlockIterator &cit = it; c.check(a == cit.corrected_l1_epoch(), "a second call differs");
  c.check(a == at(cor), "corrected epoch %.15f instead of %.15f (offset %ld ns)", show(a), show(at(cor)), off);
  c.check(b1 == at(cor), "corrected epoch through the two-carrier overload (offset %ld ns)", off);
  c.check(tl2 == at(cor + L21[l]), "400 MHz epoch (offset %ld, carrier offset %ld ns)", off, L21[l]);
  c.check((long)r.l21_date_offset().as_underlying_type() == L21[l], "carrier offset %ld instead of %ld", (long)r.l21_date_offset().as_underlying_type(), L21[l]);
  auto q = it.cheader; q.apply_clock_offset(); c.check(q.m_epoch == at(off), "apply_clock_offset with %ld ns", off);
  mc::Hash h; h.i(t).i(o).i(l).i(rcv); c.state(h.h); c.outcome(off + L21[l]);
}
} // namespace
MC_PROPERTY("R03", "model_checking",
  "every list of up to 3 (4) stations over 6 internal numbers and 6 identifiers with shared prefixes and every key; every ordered list of up to 4 (5) of the 10 observables and every key; every block of up to 3 beacons and every key; every combination of 7 epochs around day and year boundaries, 21 clock offsets (absent, signs, decimals that truncation would lose), 12 carrier offsets and three states of the applied flag",
  "stated in the rule (quick / thorough)",
  "dates come from a stand-in for the external datetime library with exact nanoseconds")
