// Writes DORIS RINEX 3 texts from a description of what they say.
#pragma once
#include <string>
#include <vector>
#include <cstdio>
#include <cstdarg>
namespace rnx {
inline std::string fmt(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string rec(std::string body, const char *label) { body.resize(60, ' '); return body + label; }
struct Date { int y, m, d, H, M; double S; };
struct Sta { std::string in, id, name, domes; int type, k; };
struct Ref { std::string in; double bias, shift; };
struct Scale { int factor; std::vector<std::string> codes; bool all; int form; }; // all: blank (0) or number zero (1)
struct Header {
  double version = 3.0; std::string sat = "JASON-3", cospar = "2016-002A", chain = "CHAIN1", rtype = "DGXX", rvers = "1.00";
  double pos[3] = {2.412, -0.1325, 0.9235}, com[3] = {0.9768, 0.0001, 0.0011};
  std::vector<std::string> codes{"L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"};
  std::vector<Scale> scales; Date first{2020, 1, 1, 0, 1, 3.0}; bool has_l21 = true; double l21 = 2.015;
  std::vector<Sta> st{{"D01", "ADHC", "TERRE ADELIE", "91501S005", 3, 0}, {"D02", "AMVB", "AMSTERDAM", "91401S005", 3, 12}};
  std::vector<Ref> refs{{"D02", 1.25, -3.5}}; bool has_refdate = true; Date refdate{2020, 1, 1, 0, 0, 0.0}; int rcv = -1;
  static std::string d12(const Date &d) { return fmt("%6d%6d%6d%6d%6d%13.7f", d.y, d.m, d.d, d.H, d.M, d.S); }
  std::vector<int> factors() const { std::vector<int> f(codes.size(), 1); for (auto &s : scales) for (size_t i = 0; i < codes.size(); i++) { bool in = s.all; for (auto &c : s.codes) in |= c == codes[i]; if (in) f[i] = s.factor; } return f; }
  static std::string code(const std::string &c) { return fmt(" %-3s", c.c_str()); }
  // records in the order files use
  enum Kind { VERS, PGM, SAT, COSPAR, MARKER, OBSERVER, RECV, ANT, POS, COM, TYPES, FIRST, SCALE, L21, NST, STREF, NREF, REFST, REFDATE, RCV, COMMENT, END };
  struct Rec { Kind k; std::string t; int i; };
  std::vector<Rec> records() const {
    std::vector<Rec> r; auto add = [&](Kind k, std::string t, int i = 0) { r.push_back({k, t, i}); };
    add(VERS, rec(fmt("%9.2f%11s%-20s%-20s", version, "", "O", "D"), "RINEX VERSION / TYPE"));
    add(PGM, rec("Expert              CNES                20200102 120000 UTC ", "PGM / RUN BY / DATE"));
    add(SAT, rec(sat, "SATELLITE NAME"));
    add(COSPAR, rec(cospar, "COSPAR NUMBER"));
    add(MARKER, rec("SPACEBORNE", "MARKER TYPE"));
    add(OBSERVER, rec("SPA_BN1_4.7P1       CNES", "OBSERVER / AGENCY"));
    add(RECV, rec(fmt("%-20s%-20s%-20s", chain.c_str(), rtype.c_str(), rvers.c_str()), "REC # / TYPE / VERS"));
    add(ANT, rec("DORIS               STAREC", "ANT # / TYPE"));
    add(POS, rec(fmt("%14.4f%14.4f%14.4f", pos[0], pos[1], pos[2]), "APPROX POSITION XYZ"));
    add(COM, rec(fmt("%14.4f%14.4f%14.4f", com[0], com[1], com[2]), "CENTER OF MASS: XYZ"));
    std::string t = fmt("D  %3d", (int)codes.size()); for (auto &c : codes) t += code(c); add(TYPES, rec(t, "SYS / # / OBS TYPES"));
    add(FIRST, rec(d12(first) + "     DOR", "TIME OF FIRST OBS"));
    int n = 0; for (auto &s : scales) { t = fmt("D %4d  ", s.factor); if (s.all) t += s.form ? " 0" : "  "; else { t += fmt("%2d", (int)s.codes.size()); for (auto &c : s.codes) t += code(c); } add(SCALE, rec(t, "SYS / SCALE FACTOR"), n++); }
    if (has_l21) add(L21, rec(fmt("D  %14.3f", l21), "L2 / L1 DATE OFFSET"));
    add(NST, rec(fmt("%6d", (int)st.size()), "# OF STATIONS"));
    n = 0; for (auto &s : st) add(STREF, rec(fmt("%-3s  %-4s %-30s%-10s%2d%8s", s.in.c_str(), s.id.c_str(), s.name.c_str(), s.domes.c_str(), s.type, fmt("%3d", s.k).c_str()).substr(0, 60), "STATION REFERENCE"), n++);
    add(NREF, rec(fmt("%6d", (int)refs.size()), "# TIME REF STATIONS"));
    n = 0; for (auto &s : refs) add(REFST, rec(fmt("%-3s  %14.3f%14.3f", s.in.c_str(), s.bias, s.shift), "TIME REF STATION"), n++);
    if (has_refdate) add(REFDATE, rec(d12(refdate) + "     DOR", "TIME REF STAT DATE"));
    if (rcv >= 0) add(RCV, rec(fmt("%6d", rcv), "RCV CLOCK OFFS APPL"));
    add(END, rec("", "END OF HEADER"));
    return r;
  }
  // may record a come directly or indirectly before b? definitions come before use
  static bool legal(const std::vector<Rec> &r) {
    int types = -1, nref = -1; (void)nref;
    for (size_t i = 0; i < r.size(); i++) {
      if (r[i].k == VERS && i != 0) return false; if (r[i].k == PGM && i != 1) return false; if (r[i].k == END && i + 1 != r.size()) return false;
      if (r[i].k == TYPES) types = i; if (r[i].k == SCALE && types < 0) return false;
      for (size_t j = 0; j < i; j++) { if (r[i].k == r[j].k && r[j].i > r[i].i) return false; if (r[j].k == REFST && r[i].k == STREF) return false; if (r[j].k == STREF && r[i].k == NST) return false; if (r[j].k == REFST && r[i].k == NREF) return false; }
    }
    return true;
  }
  std::string text() const { std::string s; for (auto &r : records()) s += r.t + "\n"; return s; }
};
// data blocks
struct Val { enum Form { NUM, BLANK, ZERO } f; double v; char f1, f2; };
struct Beacon { std::string in; std::vector<Val> v; };
struct Block { Date t; bool has_off; double off; int flag, cflag; bool has_cflag; std::vector<Beacon> b; };
inline std::string val(const Val &v) { return (v.f == Val::BLANK ? std::string(14, ' ') : fmt("%14.3f", v.f == Val::ZERO ? 0e0 : v.v)) + v.f1 + v.f2; }
inline std::vector<std::string> lines(const Block &b) {
  std::vector<std::string> L;
  std::string t = fmt("> %4d %02d %02d %02d %02d%13.9f  %d%3d      ", b.t.y, b.t.m, b.t.d, b.t.H, b.t.M, b.t.S, b.flag, (int)b.b.size());
  t += b.has_off ? fmt("%13.9f", b.off) : std::string(13, ' '); t += b.has_cflag ? fmt(" %d ", b.cflag) : "   "; L.push_back(t);
  for (auto &k : b.b) { std::string s; for (size_t i = 0; i < k.v.size(); i++) { if (i % 5 == 0) { if (i) L.push_back(s); s = i ? "   " : k.in; } s += val(k.v[i]); } L.push_back(s); }
  return L;
}
inline std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
} // namespace rnx
// the private header fields, where the class has them
#define RNX_FIELD(NAME) \
  template <class R> auto get_##NAME(const R &r, int) -> decltype(&r.NAME) { return &r.NAME; } \
  template <class R> std::nullptr_t get_##NAME(const R &, long) { return nullptr; }
