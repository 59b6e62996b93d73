// G03: gravity-model headers.
#include "mc.hpp"
#include "icgemio.hpp"
#include <string>
#include <vector>
#ifdef VAR_COPY
#define SFX "-var"
#else
#define SFX ""
#endif
namespace {
struct Val { const char *text; double num; };
struct Key { const char *name; bool mandatory, numeric; int cap; Val v[3]; };
// two legal values and, for numbers, one with a Fortran exponent
const Key KEYS[8] = {
  {"product_type", true, false, 64, {{"gravity_field", 0}, {"topography", 0}, {"x", 0}}},
  {"modelname", true, false, 128, {{"GGM05S", 0}, {"EIGEN-6S4_(v2)", 0}, {"norm", 0}}},
  {"earth_gravity_constant", true, true, 0, {{"0.3986004415E+15", 0.3986004415E+15}, {"398600.4415", 398600.4415}, {"0.3986004415D+15", 0.3986004415E+15}}},
  {"radius", true, true, 0, {{"6378136.3", 6378136.3}, {"6.3781363e6", 6.3781363e6}, {"0.63781363d+07", 6378136.3}}},
  {"max_degree", true, true, 0, {{"2", 2}, {"180", 180}, {"3", 3}}},
  {"errors", true, false, 64, {{"formal", 0}, {"calibrated_and_formal", 0}, {"no", 0}}},
  {"tide_system", false, false, 64, {{"zero_tide", 0}, {"tide_free", 0}, {"unknown", 0}}},
  {"norm", false, false, 64, {{"fully_normalized", 0}, {"unnormalized", 0}, {"fully_normalized_not", 0}}},
};
enum { OK = 0, OMIT, TRAIL, CR, LEAD, TAB, WIDE, WORDS, ALT1, ALT2, LONGEST, TOOLONG, EMPTY, BARE, JUNK, PARTIAL, ZERO, NEG, HUGE_, NFORMS };

std::string grab(dso::Icgem &g) {
  char *buf = nullptr; size_t n = 0;
  FILE *old = stdout;
  stdout = open_memstream(&buf, &n);
  g.print_details();
  std::fclose(stdout);
  stdout = old;
  std::string s(buf, n);
  std::free(buf);
  return s;
}
std::string field(const std::string &s, const char *name) {
  size_t a = s.find(name);
  if (a == std::string::npos) return "<no such line>";
  a = s.find(':', a) + 2;
  return s.substr(a, s.find('\n', a) - a);
}

void header(mc::Ctx &c, int budget_unused) {
  (void)budget_unused;
  std::string val[8]; double num[8] = {0};
  bool err = false, either = false;
  int order[8] = {0, 1, 2, 3, 4, 5, 6, 7};
  int nsw = 28;
  int o = c.deviate(1 + 1 + 7 + nsw, "record order");
  if (o == 1) for (int i = 0; i < 8; i++) order[i] = 7 - i;
  else if (o >= 2 && o < 9) for (int i = 0; i < 8; i++) order[i] = (i + o - 1) % 8;
  else if (o >= 9) { int k = o - 9; for (int i = 0; i < 8; i++) for (int j = i + 1; j < 8; j++) if (k-- == 0) std::swap(order[i], order[j]); }
  if (o) c.note("order %d", o);
  int pre = c.deviate(8, "preamble");
  static const char *PRE[8] = {"", "A gravity model in free text: see http://x.y\n", "\n   \n", "begin_of_head =====================\n",
    "normalisation and radiuses of errorsome_models\nmaximum\n", "gfc 2 0 9.9 9.9\ngfc  0 0 7.0 0.0\n", "# end of head is below, not end-of_head\n\r\n", "modelnames 5\nproduct_types: z\nearth_gravity_constants none\nmax_degrees x\ntide_systems q\n"};
  if (pre) c.note("preamble %d", pre);
  std::string txt = PRE[pre];
  int nd = 0;
  for (int p = 0; p < 8; p++) {
    int k = order[p];
    const Key &K = KEYS[k];
    int f = c.deviate(NFORMS, K.name);
    if (!K.numeric && f >= JUNK) c.skip();
    if (K.numeric && (f == LONGEST || f == TOOLONG)) c.skip();
    if (f) { c.note("%s form %d", K.name, f); nd++; }
    if (f == OMIT) { if (K.mandatory) err = true; else val[k] = k == 6 ? "unknown" : "fully_normalized"; continue; }
    const Val *v = &K.v[f == ALT1 ? 1 : f == ALT2 ? 2 : 0];
    val[k] = v->text; num[k] = v->num;
    std::string sep = " ", lead = "", trail = "";
    switch (f) {
    case TRAIL: trail = "   "; break;
    case CR: trail = "\r"; break;
    case LEAD: lead = "   "; break;
    case TAB: sep = "\t"; break;
    case WIDE: sep = "            "; break;
    case WORDS: trail = "   a note"; break;
    case LONGEST: val[k] = std::string(K.cap - 1, 'q'); break;
    case TOOLONG: val[k] = std::string(K.cap + (p % 2), 'q'); either = true; break;
    case EMPTY: val[k] = ""; err = true; sep = "    "; break;
    case BARE: val[k] = ""; err = true; sep = ""; break;
    case JUNK: val[k] = "abc"; err = true; break;
    case PARTIAL: val[k] += "x"; err = true; break;
    case ZERO: val[k] = "0"; err = true; break;
    case NEG: val[k] = std::string("-") + v->text; err = true; break;
    case HUGE_: val[k] = k == 4 ? "4294967298" : "1e999"; err = true; break;
    }
    txt += lead + K.name + sep + val[k] + trail + "\n";
    static const char *GAP[4] = {"", "\n", "comment text in between\n", "   \r\n"};
    int g = c.deviate(4, "gap");
    txt += GAP[g];
    if (g) c.note("gap %d after %s", g, K.name);
  }
  int e = c.deviate(6, "end of header");
  static const char *END[6] = {"end_of_head ==================\n", "end_of_head\n", "  end_of_head ===\n", "end_of_head\r\n", "", "end_of_header\n"};
  if (e) c.note("end form %d", e);
  txt += END[e];
  if (e == 4) err = true;
  if (e == 5) either = true; // prefix of another word: accepted or refused
  // data of degree 2
  static const double CC[6] = {1, 0.5, -0.25, -4.8e-4, 2.5e-10, 2.4e-6}, SS[6] = {0, 0, 0.125, 0, 1.5e-9, -1.4e-6};
  int q = 0;
  for (int n = 0; n <= 2; n++) for (int m = 0; m <= n; m++, q++) { char b[128]; std::snprintf(b, sizeof b, "gfc %d %d %.17g %.17g 0 0\n", n, m, CC[q], SS[q]); txt += b; }
  int twice = c.deviate(2, "parsed twice");
  std::string fn = std::string(c.scratch()) + "/m.gfc";
  mc::write_file(fn.c_str(), txt);
  dso::Icgem g(fn.c_str());
  mc::dirty_stack(0xab, 4096);
  int rc = g.parse_header();
  if (twice) { c.note("parsed twice"); int r2 = g.parse_header(); c.check((rc == 0) == (r2 == 0), "second parse returned %d, first %d", r2, rc); rc = r2; }
  c.step();
  c.outcome(mc::Hash().i(rc).i(err).h);
  mc::Hash st; st.i(rc); for (auto &v : val) st.s(v.c_str()); for (int i : order) st.i(i); st.i(pre).i(e); c.state(st.h);
  if (err) { c.check(rc != 0, "header with a missing or malformed mandatory value accepted"); return; }
  if (either && rc) return;
  c.check(rc == 0, "legal header refused (%d)", rc);
  c.check(g.degree() == (int)num[4], "degree %d, header says %s", g.degree(), val[4].c_str());
  c.check(mc::close(g.gm(), num[2], 1e-15), "GM %.17g, header says %s", g.gm(), val[2].c_str());
  c.check(mc::close(g.earth_radius(), num[3], 1e-15), "radius %.17g, header says %s", g.earth_radius(), val[3].c_str());
#ifndef VAR_COPY
  c.check(g.is_normalized() == (val[7] == "fully_normalized"), "is_normalized %d, norm is '%s'", g.is_normalized(), val[7].c_str());
#endif
  std::string d = grab(g);
  static const char *NM[8] = {"Product Type", "Model Name", 0, 0, 0, "Errors", "Tide System", "Normalization"};
  for (int k = 0; k < 8; k++) if (NM[k]) { std::string f = field(d, NM[k]); c.check(f == val[k], "%s is '%s', header says '%s'", NM[k], f.c_str(), val[k].c_str()); }
  dso::HarmonicCoeffs h(2);
  int r = g.parse_data(2, 2, &h);
  c.check(r == 0, "data after the header not readable (%d)", r);
  q = 0;
  for (int n = 0; n <= 2; n++) for (int m = 0; m <= n; m++, q++) {
    c.check(h.C(n, m) == CC[q], "C(%d,%d)=%g, file says %g", n, m, h.C(n, m), CC[q]);
    if (m) c.check(h.S(n, m) == SS[q], "S(%d,%d)=%g, file says %g", n, m, h.S(n, m), SS[q]);
  }
#ifndef VAR_COPY
  c.check(mc::close(h.GM(), num[2], 1e-15) && mc::close(h.Re(), num[3], 1e-15) && h.normalized() == (val[7] == "fully_normalized"), "constants not passed on to the coefficients");
#endif
}
MC_SCENARIO("headers" SFX, 2, 3) { header(c, 0); }
// every byte prefix of a header is refused or decoded, never misread
MC_SCENARIO("truncated" SFX, 0, 0) {
  std::string txt = "text\nbegin_of_head\n";
  for (auto &K : KEYS) txt += std::string(K.name) + "  " + K.v[0].text + "\n";
  txt += "end_of_head =\n";
  int n = c.choose((int)txt.size() + 1, "length"), reuse = c.choose(2, "dirty");
  c.note("first %d bytes", n);
  std::string fn = std::string(c.scratch()) + "/t.gfc";
  mc::write_file(fn.c_str(), txt.substr(0, n));
  if (reuse) mc::dirty_stack('e', 4096);
  dso::Icgem g(fn.c_str());
  int rc = g.parse_header();
  c.step(); c.state(mc::Hash().i(n).i(rc).h); c.outcome(rc);
  bool complete = n >= (int)(txt.find("end_of_head") + 11);
  c.check((rc == 0) == complete, "%d of %zu bytes: status %d", n, txt.size(), rc);
  if (!rc) c.check(g.degree() == 2 && g.earth_radius() == 6378136.3, "values changed by truncation");
}
MC_SCENARIO("no-file" SFX, 0, 0) {
  dso::Icgem g((std::string(c.scratch()) + "/absent").c_str());
  c.check(g.parse_header() != 0, "absent file accepted"); c.step(); c.state(1);
}
} // namespace
#ifndef VAR_COPY
MC_PROPERTY("G03", "model_checking",
  "a base header and every combination of at most the budgeted number of deviations from it: record order (reversal, rotations, swaps), preamble text, per-record form (omission, spacing, CR, tabs, trailing words, alternative values, longest value, over-long, empty, malformed, zero, negative, overflow), gaps, end marker, second parse; plus every byte prefix",
  "2 (quick) / 3 (thorough) simultaneous deviations, both copies of the reader",
  "lines up to 255 characters and 1000 header lines (limits documented in the code)", "free text whose first word is exactly a keyword is outside the alphabet")
#endif
