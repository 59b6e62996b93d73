// R01: DORIS RINEX headers.
#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>
#include <eigen3/Eigen/Eigen>
#include <datetime/dtfund.hpp>
#include <datetime/dtcalendar.hpp>
#define private public
#include "doris_rinex.hpp"
#undef private
#include "rnxgen.hpp"
using namespace rnx;
RNX_FIELD(m_version) RNX_FIELD(m_satellite_name) RNX_FIELD(m_cospar_number) RNX_FIELD(m_rec_chain) RNX_FIELD(m_rec_type) RNX_FIELD(m_rec_version)
RNX_FIELD(m_antenna_type) RNX_FIELD(m_antenna_number) RNX_FIELD(m_approx_position) RNX_FIELD(m_center_mass) RNX_FIELD(m_obs_scale_factors) RNX_FIELD(m_ref_stations)
namespace {
using DT = dso::datetime<dso::nanoseconds>;
DT dt(const Date &d) { return DT(dso::year(d.y), dso::month(d.m), dso::day_of_month(d.d), dso::nanoseconds((long)(d.H * 3600 + d.M * 60) * 1000000000L + std::lround(d.S * 1e9))); }
std::string trim(const std::string &s) { return rtrim(s); }
struct Expect { bool refuse = false, either = false; std::vector<int> absent; int nogap = 0; };
const char *err_name(int e) { return e == 0 ? "0" : e == ERANGE ? "ERANGE" : "EINVAL"; }
// compare what the reader holds against the description
void compare(mc::Ctx &c, const dso::DorisObsRinex &r, const Header &H, const std::vector<Header::Rec> &R) {
  auto has = [&](Header::Kind k) { for (auto &x : R) if (x.k == k) return true; return false; };
  if (auto p = get_m_version(r, 0)) c.check(mc::close(*p, H.version, 1e-6), "version %g instead of %g", (double)*p, H.version);
  auto str = [&](auto p, const std::string &w, Header::Kind k, const char *what) { if constexpr (!std::is_same_v<decltype(p), std::nullptr_t>) { std::string got = &(*p)[0]; std::string want = has(k) ? w : ""; c.check(got == want, "%s is \"%s\" instead of \"%s\"", what, got.c_str(), want.c_str()); } };
  str(get_m_satellite_name(r, 0), H.sat, Header::SAT, "satellite name");
  str(get_m_cospar_number(r, 0), H.cospar, Header::COSPAR, "COSPAR number");
  str(get_m_rec_chain(r, 0), H.chain, Header::RECV, "receiver chain");
  str(get_m_rec_type(r, 0), H.rtype, Header::RECV, "receiver type");
  str(get_m_rec_version(r, 0), H.rvers, Header::RECV, "receiver version");
  str(get_m_antenna_type(r, 0), "STAREC", Header::ANT, "antenna type");
  str(get_m_antenna_number(r, 0), "DORIS", Header::ANT, "antenna number");
  auto vec = [&](auto p, const double *w, Header::Kind k, const char *what) { if constexpr (!std::is_same_v<decltype(p), std::nullptr_t>) for (int i = 0; i < 3; i++) { double want = has(k) ? w[i] : 0; c.check(std::fabs((*p)[i] - want) <= 1e-6 * std::max(1.0, std::fabs(want)), "%s[%d] is %.9g instead of %.9g", what, i, (double)(*p)[i], want); } };
  vec(get_m_approx_position(r, 0), H.pos, Header::POS, "approximate position");
  vec(get_m_center_mass(r, 0), H.com, Header::COM, "centre of mass");
  auto &oc = r.observation_codes();
  c.check(oc.size() == H.codes.size(), "%zu observables instead of %zu", oc.size(), H.codes.size());
  for (size_t i = 0; i < oc.size(); i++) {
    const std::string &w = H.codes[i]; bool f = w.size() > 1; char ch = dso::ObservationType_to_char(oc[i].type());
    c.check(ch == w[0] && (int)oc[i].m_freq == (f ? w[1] - '0' : 0), "observable %zu is %c%d instead of %s", i, ch, (int)oc[i].m_freq, w.c_str());
    c.check(r.get_observation_code_index(dso::ObservationCode(oc[i])) == (int)i, "observable %zu is not found at its position", i);
  }
  if (auto p = get_m_obs_scale_factors(r, 0)) { auto w = H.factors(); c.check(p->size() == w.size(), "%zu scale factors for %zu observables", p->size(), w.size()); for (size_t i = 0; i < w.size(); i++) c.check((*p)[i] == w[i], "scale factor of %s is %g instead of %d", H.codes[i].c_str(), (double)(*p)[i], w[i]); }
  if (has(Header::FIRST)) { c.check(r.time_of_first_obs() == dt(H.first), "time of first observation"); }
  if (has(Header::REFDATE)) c.check(r.ref_datetime() == dt(H.refdate), "time reference date");
  long off = std::lround((has(Header::L21) ? H.l21 : 0) * 1e3);
  c.check(r.l21_date_offset().as_underlying_type() == off, "L2/L1 date offset %ld ns instead of %ld", (long)r.l21_date_offset().as_underlying_type(), off);
  c.check(r.receiver_clock_offsets_applied() == (H.rcv == 1), "receiver clock offsets applied: %d instead of %d", (int)r.receiver_clock_offsets_applied(), H.rcv == 1);
  auto &st = r.stations(); c.check(st.size() == H.st.size(), "%zu stations instead of %zu", st.size(), H.st.size());
  for (size_t i = 0; i < st.size(); i++) {
    auto &w = H.st[i]; auto S = [](const char *p, size_t n) { std::string s(p, strnlen(p, n)); return rtrim(s); };
    c.check(S(st[i].m_internal_code, 3) == w.in && S(st[i].m_station_id, 4) == w.id && S(st[i].m_station_name, 30) == w.name && S(st[i].m_station_domes, 10) == w.domes && st[i].m_type == w.type && st[i].m_shift_factor == w.k, "station %zu differs from %s %s", i, w.in.c_str(), w.id.c_str());
  }
  if (auto p = get_m_ref_stations(r, 0)) { c.check(p->size() == H.refs.size(), "%zu reference stations instead of %zu", p->size(), H.refs.size()); for (size_t i = 0; i < p->size(); i++) c.check(std::string((*p)[i].m_station_code, 3) == H.refs[i].in && mc::close((*p)[i].m_bias, H.refs[i].bias, 1e-12) && mc::close((*p)[i].m_shift, H.refs[i].shift, 1e-12), "reference station %zu", i); }
}
const char *BLOCK = "> 2020 01 01 01 41 53.279947800  0  0       -4.432841287 0 \n";
MC_SCENARIO("headers", 1, 2) {
  Header H; Expect E;
  static const std::vector<std::string> CODES[] = {{"L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"}, {"L1"}, {"L1", "L2", "C1", "C2", "F"}, {"F", "W2", "L2", "C1", "L1", "H"}, {"L1", "L2"}};
  H.codes = CODES[c.choose(5, "observables")];
  int ns = c.choose(3, "stations") + 1;
  static const Sta ST[] = {{"D01", "ADHC", "TERRE ADELIE", "91501S005", 3, 0}, {"D02", "AMVB", "AMSTERDAM", "91401S005", 3, 12}, {"D12", "GR4B", "ABCDEFGHIJKLMNOPQRSTUVWXYZABCD", "97301S0044", 1, -128}};
  H.st.assign(ST, ST + ns);
  int nr = c.choose(std::min(ns, 2) + 1, "reference stations");
  static const double BIAS[] = {1.25, -0.004}, SH[] = {-3.5, 21.125};
  H.refs.clear(); for (int i = 0; i < nr; i++) H.refs.push_back({ST[ns - 1 - i].in, BIAS[i], SH[i]});
  switch (c.choose(7, "scale factors")) {
  case 0: break;
  case 1: H.scales.push_back({10, {}, true, 0}); break;
  case 2: H.scales.push_back({100, {}, true, 1}); break;
  case 3: H.scales.push_back({10, {H.codes[0]}, false, 0}); break;
  case 4: H.scales.push_back({1000, {H.codes.back()}, false, 0}); H.scales.push_back({10, {H.codes[0]}, false, 0}); break;
  case 5: H.scales.push_back({10, H.codes, false, 0}); break;
  case 6: H.scales.push_back({-5, {}, true, 0}); H.scales.push_back({100, {H.codes[H.codes.size() / 2]}, false, 0}); break;
  }
  // field contents and optional records
  switch (c.deviate(25, "content")) {
  case 1: H.sat = "A"; break; case 2: H.sat = std::string(59, 'Q'); break; case 3: H.sat = std::string(60, 'Q'); break; case 4: H.sat = "TWO WORDS"; break; case 5: H.sat = std::string(30, 'x') + "  y"; break;
  case 6: H.cospar = std::string(19, '1'); break; case 7: H.cospar = std::string(20, '1'); break; case 8: H.chain = std::string(20, 'c'); H.rtype = "D"; break; case 9: H.rtype = std::string(20, 't'); break; case 10: H.rvers = std::string(20, 'v'); break; case 11: H.chain = std::string(19, 'c'); break; case 12: H.version = 3.01; break;
  case 13: for (int i = 0; i < 3; i++) H.pos[i] = -99999999.9999 + i; break; case 14: for (int i = 0; i < 3; i++) H.com[i] = -1.5 * i; break;
  case 15: H.has_l21 = false; break; case 16: H.l21 = -2.0151; H.l21 = -2.015; break; case 17: H.l21 = 0; break; case 18: H.l21 = 4.003; break;
  case 19: H.rcv = 0; break; case 20: H.rcv = 1; break; case 21: H.has_refdate = false; break;
  case 22: H.first = {2019, 12, 31, 23, 59, 59.9999999}; break; case 23: H.first = {2020, 2, 29, 12, 0, 0.5}; break; case 24: H.refdate = {2020, 12, 31, 23, 59, 59.5}; break;
  }
  auto R = H.records();
  auto find = [&](Header::Kind k, int i = 0) { for (size_t j = 0; j < R.size(); j++) if (R[j].k == k && R[j].i == i) return (int)j; return -1; };
  auto need = [&](Header::Kind k, int i = 0) { int j = find(k, i); if (j < 0) c.skip(); return j; };
  // legal changes
  switch (c.deviate(4, "layout")) {
  case 1: { int a = 2 + c.choose(R.size() - 3, "record"), b = 2 + c.choose(R.size() - 3, "to"); if (a == b) c.skip(); auto x = R[a]; R.erase(R.begin() + a); R.insert(R.begin() + b, x); if (!Header::legal(R)) c.skip(); } break;
  case 2: R.insert(R.begin() + 2 + c.choose(R.size() - 2, "at"), {Header::COMMENT, rec("SOME FREE TEXT END OF HEADER ", c.flip("word") ? "COMMENT" : "COMMENT             "), 0}); break;
  case 3: for (auto &r : R) r.t.resize(80, ' '); break; // fully padded lines
  }
  // damages: the answer is an error
  int damage = c.deviate(46, "damage");
  auto set = [&](Header::Kind k, size_t col, const char *t, int i = 0) { int j = need(k, i); R[j].t.replace(col, strlen(t), t); E.refuse = true; };
  switch (damage) {
  case 0: break;
  case 1: { static const Header::Kind K[] = {Header::VERS, Header::PGM, Header::TYPES, Header::NST, Header::STREF, Header::END, Header::NREF, Header::REFST}; int k = c.choose(8, "dropped"); if (K[k] == Header::NREF && !nr) c.skip(); R.erase(R.begin() + need(K[k])); E.refuse = true; } break;
  case 2: { static const Header::Kind K[] = {Header::SAT, Header::COSPAR, Header::MARKER, Header::OBSERVER, Header::RECV, Header::ANT, Header::POS, Header::COM, Header::FIRST}; R.erase(R.begin() + need(K[c.choose(9, "dropped")])); E.either = true; } break;
  case 3: { int j = c.choose(R.size() - 1, "record"); static const int L[] = {0, 1, 30, 59, 60}; R[j].t.resize(L[c.choose(5, "length")]); E.refuse = true; } break; // a record without its label
  case 4: { int j = c.choose(R.size(), "record"); R[j].t.resize(80, ' '); R[j].t += c.flip("long") ? std::string(200, 'z') : "z"; E.either = true; } break; // an over-long line
  case 5: set(Header::VERS, 0, "      abc"); break; case 6: set(Header::VERS, 20, "N"); break; case 7: set(Header::VERS, 40, "G"); break;
  case 8: set(Header::SAT, 0, std::string(60, ' ').c_str()); break; case 9: set(Header::COSPAR, 0, "                    "); break; case 10: set(Header::MARKER, 0, "GEODETIC  "); break;
  case 11: set(Header::RECV, 0, "                    "); break; case 12: set(Header::RECV, 20, "                    "); break; case 13: set(Header::RECV, 40, "                    "); break;
  case 14: set(Header::ANT, 20, "ALCATEL"); break; case 15: set(Header::ANT, 0, "GPS  "); break;
  case 16: { int i = c.choose(3, "axis"); set(Header::POS, 14 * i, "          abcd"); } break; case 17: { int i = c.choose(3, "axis"); set(Header::COM, 14 * i, "              "); } break;
  case 18: set(Header::TYPES, 0, "G"); break; case 19: set(Header::TYPES, 3, "  x"); break; case 20: set(Header::TYPES, 3, "  0"); break;
  case 21: { char b[8]; snprintf(b, sizeof b, "%3d", (int)H.codes.size() + 1); set(Header::TYPES, 3, b); } break; // one code missing
  case 22: set(Header::TYPES, 3, " 13"); break; case 23: set(Header::TYPES, 3, " -1"); break;
  case 24: { int i = c.choose(H.codes.size(), "code"); set(Header::TYPES, 7 + 4 * i, "Z1"); } break;
  case 25: { int i = c.choose(H.codes.size(), "code"); if (H.codes[i].size() < 2) c.skip(); set(Header::TYPES, 8 + 4 * i, c.flip("digit") ? "3" : " "); } break;
  case 26: { int i = c.choose(H.codes.size(), "code"); set(Header::TYPES, 7 + 4 * i, "  "); } break;
  case 27: set(Header::FIRST, 48, "GPS"); break; case 28: set(Header::FIRST, 6, "    13"); break; case 29: set(Header::FIRST, 0, "  20x0"); break; case 30: set(Header::FIRST, 12, "    32"); break;
  case 31: set(Header::SCALE, 0, "G"); break; case 32: set(Header::SCALE, 2, "   0"); break; case 33: set(Header::SCALE, 2, "  ab"); break;
  case 34: { int j = need(Header::SCALE); if (H.scales[0].all) c.skip(); char b[8]; snprintf(b, sizeof b, "%2d", (int)H.codes.size() + 1); set(Header::SCALE, 8, b); (void)j; } break;
  case 35: { need(Header::SCALE); if (H.scales[0].all) c.skip(); static const char *B[] = {"Z1", "C9", "  ", "L3"}; set(Header::SCALE, 11, B[c.choose(4, "code")]); } break;
  case 36: { need(Header::SCALE); if (H.scales[0].all) c.skip(); std::string miss; for (const char *k : {"H", "W1", "T", "C2"}) if (std::find(H.codes.begin(), H.codes.end(), k) == H.codes.end()) miss = k; if (miss.empty()) c.skip(); miss.resize(3, ' '); set(Header::SCALE, 11, miss.c_str()); } break; // an undeclared observable
  case 37: set(Header::L21, 0, "G"); break; case 38: set(Header::L21, 3, "           abc"); break;
  case 39: { static const char *B[] = {"     0", "    -1", "   abc", "      ", "     9"}; set(Header::NST, 0, B[c.choose(5, "count")]); } break;
  case 40: { int i = c.choose(ns, "station"); static const struct { int col; const char *t; } B[] = {{50, " x"}, {52, "     abc"}, {50, "  "}, {52, "        "}}; int b = c.choose(4, "field"); set(Header::STREF, B[b].col, B[b].t, i); } break;
  case 41: { static const char *B[] = {"    -1", "   abc", "      ", "     9"}; int b = c.choose(4, "count"); set(Header::NREF, 0, B[b]); } break;
  case 42: { int b = c.choose(4, "field"); static const struct { int col; const char *t; } B[] = {{0, "D99"}, {5, "           abc"}, {19, "           abc"}, {19, "              "}}; set(Header::REFST, B[b].col, B[b].t); } break;
  case 43: { static const char *B[] = {"     2", "    -1", "     x", "      "}; set(Header::RCV, 0, B[c.choose(4, "flag")]); } break;
  case 44: set(Header::REFDATE, 6, "    13"); break;
  case 45: { int j = c.choose(2, "which") ? need(Header::STREF, ns - 1) : need(Header::NST); auto x = R[j]; R.insert(R.begin() + j, x); if (x.k == Header::STREF) E.refuse = true; else {} } break; // one station record too many; a repeated count changes nothing
  }
  std::string txt; for (auto &r : R) txt += r.t + "\n"; txt += BLOCK;
  if (E.refuse && E.either) E.refuse = E.refuse;
  static const int ERR[] = {0, ERANGE, EINVAL}; int er = c.deviate(3, "errno before"); int pat = c.deviate(2, "stack before");
  std::string fn = std::string(c.scratch()) + "/h.rnx"; mc::write_file(fn.c_str(), txt);
  bool threw = false; c.step();
  mc::dirty_stack(pat ? '7' : 0xFF); errno = ERR[er];
  try { dso::DorisObsRinex r(fn.c_str()); ::unlink(fn.c_str());
    if (E.refuse) c.fail("a malformed header was accepted (damage %d)\n%s", damage, txt.c_str());
    if (damage != 4 || true) compare(c, r, H, R);
    dso::RinexDataBlockIterator it(&r); c.check(it.next() == 0 && it.cheader.m_num_stations == 0, "the first data block does not follow the header");
    c.check(it.next() == -1, "no end of data after the last block");
    c.state(r.stations().size() * 100 + H.codes.size());
  } catch (std::runtime_error &) { threw = true; ::unlink(fn.c_str()); }
  if (threw && !E.refuse && !E.either) c.fail("a legal header was refused (errno before: %s)\n%s", err_name(ERR[er]), txt.c_str());
  mc::Hash h; h.s(txt.c_str()).i(threw); c.state(h.h); c.outcome(threw ? 1 : 0);
}
// every byte prefix of a header
MC_SCENARIO("cuts", 0, 0) {
  Header H; int k = c.choose(3, "header"); if (k) { H.codes = {"L1", "L2", "F"}; H.scales = {{10, {"L1"}, false, 0}, {100, {"F"}, false, 0}}; H.rcv = 1; } if (k == 2) { H.refs.clear(); H.st.resize(1); H.scales = {{10, {}, true, 0}}; }
  auto R = H.records(); int line = c.choose(R.size(), "line"), col = c.choose(81, "column"); if (col > (int)R[line].t.size()) c.skip();
  std::string txt; for (int i = 0; i < line; i++) txt += R[i].t + "\n"; txt += R[line].t.substr(0, col);
  bool complete = line + 1 == (int)R.size() && col >= 60 + 13;
  std::string fn = std::string(c.scratch()) + "/c.rnx"; mc::write_file(fn.c_str(), txt); bool threw = false; c.step(); mc::dirty_stack(c.flip("stack") ? '3' : 0xFF); errno = 0;
  try { dso::DorisObsRinex r(fn.c_str()); if (complete) { compare(c, r, H, R); dso::RinexDataBlockIterator it(&r); c.check(it.next() != 0, "a block was read from a file without any"); } } catch (std::runtime_error &) { threw = true; }
  ::unlink(fn.c_str());
  if (!complete) c.check(threw, "a header cut in line %d column %d was accepted\n%s", line, col, txt.c_str());
  mc::Hash h; h.s(txt.c_str()); c.state(h.h); c.outcome(threw);
}
// what one file says never shows in another
MC_SCENARIO("sequences", 0, 0) {
  int n = c.thorough() ? 3 : 2; std::vector<Header> V(4);
  V[1].codes = {"L1"}; V[1].scales = {{7, {}, true, 0}}; V[1].rcv = 1; V[1].sat = "X"; V[1].cospar = "1"; V[2].has_l21 = false; V[2].refs.clear(); V[2].st.resize(1); V[2].codes = {"C2", "F", "L1"}; V[2].has_refdate = false;
  for (int i = 0; i < n; i++) {
    int k = c.choose(5, "file"); auto R = V[k % 4].records(); if (k == 3) R.erase(std::remove_if(R.begin(), R.end(), [](auto &x) { return x.k == Header::SAT || x.k == Header::COSPAR || x.k == Header::RECV || x.k == Header::ANT || x.k == Header::POS || x.k == Header::COM; }), R.end());
    std::string txt; for (auto &r : R) txt += r.t + "\n"; if (k == 4) txt = "not a RINEX\n"; txt += BLOCK; std::string fn = std::string(c.scratch()) + "/s.rnx"; mc::write_file(fn.c_str(), txt); c.step(); bool threw = false;
    try { dso::DorisObsRinex r(fn.c_str()); if (k != 4) { compare(c, r, V[k % 4], R); dso::DorisObsRinex q(std::move(r)); compare(c, q, V[k % 4], R); } } catch (std::runtime_error &) { threw = true; }
    ::unlink(fn.c_str());
    c.check(k == 3 || threw == (k == 4), "file %d: threw %d", k, threw); mc::Hash h; h.i(i).i(k); c.state(h.h);
  }
  { bool threw = false; std::string fn = std::string(c.scratch()) + "/absent.rnx"; try { dso::DorisObsRinex r(fn.c_str()); } catch (std::runtime_error &) { threw = true; } c.check(threw, "a missing file was accepted"); }
  c.outcome(1);
}
} // namespace
MC_PROPERTY("R01", "model_checking",
  "every header over observable lists, station and reference-station counts, scale-factor forms, combined with every set of up to the stated number of deviations: field contents (widths, signs, optional records), layout (any record moved to any legal place, comments, padding), damages of every record (dropped, label cut off, over-long, garbage, blank, out-of-range, counts that disagree), error and stack state left by earlier calls; every byte prefix of three headers; every sequence of files",
  "1 deviation over 5 x 9 x 7 base headers (quick) / 2 (thorough); all byte prefixes; sequences of 2 / 3 files",
  "the external date parser is a stand-in that throws on malformed dates",
  "records come after the records they refer to; SYS / DCBS APPLIED, documented as unhandled, is left out; an over-long line or a missing descriptive record may be accepted or refused, but then with the right values")
