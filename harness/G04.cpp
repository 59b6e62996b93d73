// G04: gravity-model data sections.
#include "mc.hpp"
#include "icgemio.hpp"
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#ifdef VAR_COPY
#define SFX "-var"
#else
#define SFX ""
#include "egravity.hpp"
#endif
namespace {
struct Line { int n, m; double C, S; bool valid; std::string text; };
double cv(int n, int m) { return n == 0 ? 1 : n == 1 ? 0.001 * (m + 1) : ((n + m) % 2 ? -1 : 1) * (1 + n * 0.37 + m * 0.011) * 1e-6; }
double sv(int n, int m) { return m == 0 ? 0 : ((n + 2 * m) % 3 ? -1 : 1) * (1 + n * 0.23 + m * 0.017) * 1e-7; }
std::string num(double v, int style) {
  char b[64]; std::snprintf(b, sizeof b, "%.17e", v);
  std::string s = b;
  if (style) { size_t e = s.find('e'); s[e] = style == 1 ? 'D' : style == 2 ? 'd' : 'E'; }
  return s;
}
std::string mk(const std::string &n, const std::string &m, const std::string &C, const std::string &S) { return "gfc " + n + "  " + m + "  " + C + "  " + S; }
enum { NORM = 0, OMIT, DUP, DUPDIFF, DUPEND, FORTRAN, EXTRA, TABS, CRLF, GFCT, NEGN, NEGM, MGTN, WRAP, WORDN, HALFN, WORDC, TAILC, NOS, TAILS, SZ, NANC, LONGL, SHORTF, FOREIGN, BLANK, NFORM };

void section(mc::Ctx &c, int lo, int nd) {
  int D = c.choose(nd, "model degree") + lo;
  int l = c.choose(D + 2, "l"), m = c.choose(l + 2, "m"), big = c.choose(3, "set"); // big 0: set of degree l; 1: D+1; 2: too small
  c.note("model degree %d, requested %d/%d, set %s", D, l, m, big == 0 ? "exact" : big == 1 ? "larger" : "too small");
  bool bad_request = l > D || m > l || big == 2;
  if (big == 2 && l == 0) c.skip();
  std::vector<Line> L;
  bool anomalies = false; // something that may legitimately make the load fail
  std::vector<Line> tail;
  std::vector<std::pair<int, int>> idx;
  int o = c.deviate(4, "line order");
  if (o) c.note("line order %d", o);
  if (o == 3) for (int k = 0; k <= D; k++) for (int n = k; n <= D; n++) idx.push_back({n, k});
  else for (int n = 0; n <= D; n++) for (int k = 0; k <= n; k++) idx.push_back({n, k});
  if (o == 1) std::reverse(idx.begin(), idx.end());
  if (o == 2) std::rotate(idx.begin(), idx.begin() + idx.size() / 2, idx.end());
  for (auto &p : idx) {
    int n = p.first, k = p.second;
    std::string N = std::to_string(n), K = std::to_string(k), C = num(cv(n, k), 0), S = num(sv(n, k), 0);
    Line good{n, k, cv(n, k), sv(n, k), true, mk(N, K, C, S) + " 1e-12 2e-12"};
    int f = c.deviate(NFORM, "line");
    if (f) c.note("(%d,%d) form %d", n, k, f);
    Line x = good; x.valid = false;
    switch (f) {
    case NORM: L.push_back(good); break;
    case OMIT: anomalies = true; break; // the oracle decides which omissions are harmless
    case DUP: L.push_back(good); L.push_back(good); anomalies = true; break;
    case DUPDIFF: { L.push_back(good); Line y = good; y.C *= 2; y.text = mk(N, K, num(y.C, 0), S); L.push_back(y); anomalies = true; break; }
    case DUPEND: L.push_back(good); tail.push_back(good); anomalies = true; break;
    case FORTRAN: good.text = mk(N, K, num(cv(n, k), 1), num(sv(n, k), 2)) + " 0.1D-10 0.2D-10"; L.push_back(good); break;
    case EXTRA: good.text += " 1.0 2.0 20050101.0 text"; L.push_back(good); break;
    case TABS: good.text = "gfc \t" + N + "\t" + K + "\t" + C + "\t" + S; L.push_back(good); break;
    case CRLF: good.text = mk(N, K, C, S) + "\r"; L.push_back(good); break;
    case SHORTF: good.text = mk(N, K, C, S); L.push_back(good); break;
    case GFCT: x.text = "gfct" + good.text.substr(3) + " 20050101.0"; L.push_back(x); anomalies = true; break;
    case NEGN: x.text = mk("-" + N + (n ? "" : "1"), K, C, S); L.push_back(x); anomalies = true; break;
    case NEGM: x.text = mk(N, "-" + std::to_string(k + 1), C, S); L.push_back(x); anomalies = true; break;
    case MGTN: x.text = mk(N, std::to_string(n + 1), C, S); L.push_back(x); anomalies = true; break;
    case WRAP: x.text = mk(std::to_string(4294967296L + n), std::to_string(4294967296L + k), C, S); L.push_back(x); anomalies = true; break;
    case WORDN: x.text = mk("two", K, C, S); L.push_back(x); anomalies = true; break;
    case HALFN: x.text = mk(N, K + ".5", C, S); L.push_back(x); anomalies = true; break;
    case WORDC: x.text = mk(N, K, "none", S); L.push_back(x); anomalies = true; break;
    case TAILC: x.text = mk(N, K, C + "x", S); L.push_back(x); anomalies = true; break;
    case NOS: x.text = mk(N, K, C, ""); L.push_back(x); anomalies = true; break;
    case TAILS: x.text = mk(N, K, C, S + "q"); L.push_back(x); anomalies = true; break;
    case SZ: if (k) c.skip(); x.text = mk(N, K, C, "1e-9"); L.push_back(x); anomalies = true; break;
    case NANC: x.text = mk(N, K, "nan", S); L.push_back(x); anomalies = true; break;
    case LONGL: good.text += std::string(600, ' ') + "."; L.push_back(good); anomalies = true; break;
    case FOREIGN: L.push_back(Line{-1, 0, 0, 0, false, "# comment"}); L.push_back(Line{-1, 0, 0, 0, false, "trnd " + N + " " + K + " 5.0 6.0"}); L.push_back(Line{-1, 0, 0, 0, false, "gfcx 2 0 8.0 0.0"}); L.push_back(good); break;
    case BLANK: L.push_back(Line{-1, 0, 0, 0, false, ""}); L.push_back(Line{-1, 0, 0, 0, false, "   "}); L.push_back(good); break;
    }
  }
  for (auto &t : tail) L.push_back(t);
  int cut = c.deviate((int)L.size() + 1, "file ends early");
  if (cut) { c.note("only the first %d lines", cut - 1); L.resize(cut - 1); anomalies = true; }
  int nonl = c.deviate(2, "no final newline");
  if (nonl) c.note("no final newline");
  std::string txt = "product_type gravity_field\nmodelname M\nearth_gravity_constant 3.98e14\nradius 6378136.0\nmax_degree " + std::to_string(D) + "\nerrors formal\nnorm fully_normalized\nend_of_head\n";
  for (size_t i = 0; i < L.size(); i++) { txt += L[i].text; if (!(nonl && i + 1 == L.size())) txt += "\n"; }
  std::string fn = std::string(c.scratch()) + "/d.gfc";
  mc::write_file(fn.c_str(), txt);

  int deg = big == 0 ? l : big == 1 ? D + 1 : l - 1;
  size_t before = mc::heap_live();
  {
    dso::Icgem g(fn.c_str());
    c.check(g.parse_header() == 0, "header refused");
    dso::HarmonicCoeffs h(deg);
    const double SENT = -999e0; // also what an implementation might use itself
    for (int n = 0; n <= deg; n++) for (int k = 0; k <= n; k++) { h.C(n, k) = SENT; if (k) h.S(n, k) = SENT; }
    // without "NOTE" output in the log
    int rc = g.parse_data(l, m, &h);
    c.step();
    mc::Hash st; st.i(D).i(l).i(m).i(big).i(rc); for (auto &x : L) st.i(x.n).i(x.m).i(x.valid); c.state(st.h);
    c.outcome(mc::Hash().i(rc).i(bad_request).i(anomalies).h);
    if (bad_request) { c.check(rc != 0, "request beyond the model or the set accepted"); return; }
    bool must_fail = false, deg1_missing = false;
    std::string why;
    for (int n = 0; n <= l; n++) for (int k = 0; k <= n && k <= m; k++) {
      std::vector<const Line *> v;
      for (auto &x : L) if (x.valid && x.n == n && x.m == k) v.push_back(&x);
      if (v.empty() && n != 1) { must_fail = true; why = "(" + std::to_string(n) + "," + std::to_string(k) + ") is not in the file"; }
      if (v.empty() && n == 1) deg1_missing = true;
      if (rc) continue;
      double gc = h.C(n, k), gs = k ? h.S(n, k) : 0;
      bool ok = false;
      for (auto *x : v) if (gc == x->C && (!k || gs == x->S)) ok = true;
      if (v.empty() && n == 1 && gc == 0 && gs == 0) ok = true;
      c.check(ok, "loaded (%d,%d) = %.17g %.17g which the file does not state%s", n, k, gc, gs, must_fail ? " (nor could it)" : "");
    }
    if (must_fail) c.check(rc != 0, "load succeeded although %s", why.c_str());
    // omission of degree-one terms alone is the models' convention
    bool only_deg1 = anomalies && !cut && tail.empty();
    if (only_deg1) {
      std::map<std::pair<int, int>, int> cnt;
      bool clean = true;
      for (auto &x : L) { if (x.n >= 0 && !x.valid) clean = false; if (x.n >= 0) cnt[{x.n, x.m}]++; if (x.text.size() > 500) clean = false; }
      for (auto &p : idx) if (p.first != 1 && cnt[p] != 1) clean = false;
      for (auto &p : idx) if (p.first == 1 && cnt[p] > 1) clean = false;
      only_deg1 = clean;
    }
    if (!anomalies || only_deg1) c.check(rc == 0, "legal data section refused (%d)%s", rc, deg1_missing ? " for lack of degree-one terms" : "");
#ifndef VAR_COPY
    if (!rc) c.check(h.GM() == 3.98e14 && h.Re() == 6378136.0 && h.normalized(), "model constants not assigned");
#endif
  }
  c.check(mc::heap_live() <= before, "leak");
}
MC_SCENARIO("sections" SFX, 2, 3) { section(c, 1, 2); }
MC_SCENARIO("sections-larger" SFX, 1, 2) { section(c, 3, c.thorough() ? 2 : 1); }
// every byte prefix
MC_SCENARIO("truncated" SFX, 0, 0) {
  std::string head = "product_type gravity_field\nmodelname M\nearth_gravity_constant 3.98e14\nradius 6378136.0\nmax_degree 3\nerrors formal\nend_of_head\n", txt;
  std::vector<size_t> endC; // byte position after which the S value is complete
  for (int n = 0; n <= 3; n++) for (int k = 0; k <= n; k++) { txt += mk(std::to_string(n), std::to_string(k), num(cv(n, k), 0), num(sv(n, k), 0)); endC.push_back(txt.size()); txt += " 1e-10 1e-10\n"; }
  int n = c.choose((int)txt.size() + 1, "bytes"), l = c.choose(4, "l"), m = c.choose(l + 1, "m");
  c.note("first %d data bytes, %d/%d", n, l, m);
  std::string fn = std::string(c.scratch()) + "/t.gfc";
  mc::write_file(fn.c_str(), head + txt.substr(0, n));
  dso::Icgem g(fn.c_str());
  c.check(!g.parse_header(), "header");
  dso::HarmonicCoeffs h(l);
  for (int i = 0; i <= l; i++) for (int k = 0; k <= i; k++) { h.C(i, k) = 55; if (k) h.S(i, k) = 55; }
  int rc = g.parse_data(l, m, &h);
  c.step(); c.state(mc::Hash().i(n).i(l).i(m).i(rc).h); c.outcome(rc);
  int q = 0; bool have = true, partial = false;
  for (int i = 0; i <= 3; i++) for (int k = 0; k <= i; k++, q++) if (i <= l && k <= m) {
    bool here = (size_t)n >= endC[q], start = q ? (size_t)n > endC[q - 1] + 13 : n > 0;
    if (!here && i != 1) have = false;
    if (!here && start) partial = true; // a value cut within its digits cannot be told from a complete one
    if (!here && i == 1) { int nx = 0; (void)nx; }
  }
  if (rc == 0 && !partial) {
    c.check(have, "truncated section accepted");
    q = 0;
    for (int i = 0; i <= l; i++) for (int k = 0; k <= std::min(i, m); k++) {
      bool ok = (h.C(i, k) == cv(i, k) && (!k || h.S(i, k) == sv(i, k))) || (i == 1 && h.C(i, k) == 0 && (!k || h.S(i, k) == 0));
      c.check(ok, "(%d,%d) loaded as %g", i, k, h.C(i, k));
    }
  }
  if ((size_t)n == txt.size()) c.check(rc == 0, "whole section refused");
}
// degrees and orders of one, two and three digits; records by order or by degree, with zero-padded or right-aligned indices
MC_SCENARIO("degrees" SFX, 0, 0) {
  static const int DG[] = {12, 23, 105};
  int q = c.choose(c.thorough() ? 3 : 2, "model degree"), D = DG[q], o = c.choose(2, "line order"), f = c.choose(3, "index format"), z = c.choose(2, "leave out"), bl = 0, bm = 0;
  int l = q == 2 ? c.pick<int>(std::vector<int>{7, 8, 9, 10, 11, 63, 64, 65, 99, 100, 101, 105}, "l") : 7 + c.choose(D - 6, "l"), m = c.pick<int>(std::vector<int>{0, 1, 7, 8, 9, 10, 11, 100, 1000}, "m");
  if (m == 1000) m = l;
  if (m > l) c.skip();
  c.note("model degree %d, requested %d/%d, line order %d, format %d", D, l, m, o, f);
  if (z) { // one coefficient is missing
    bl = c.pick<int>(std::vector<int>{8, 9, 10, 11, D}, "missing degree"), bm = c.pick<int>(std::vector<int>{0, 7, 8, 9, 10, 11}, "missing order");
    if (bm > bl) c.skip();
    c.note("(%d,%d) is missing", bl, bm);
  }
  std::string txt = "product_type gravity_field\nmodelname M\nearth_gravity_constant 3.98e14\nradius 6378136.0\nmax_degree " + std::to_string(D) + "\nerrors formal\nend_of_head\n";
  auto rec = [&](int n, int k) {
    if (z && n == bl && k == bm) return;
    char b[16], d[16];
    const char *fm = f == 0 ? "%d" : f == 1 ? "%5d" : "%03d";
    std::snprintf(b, sizeof b, fm, n); std::snprintf(d, sizeof d, fm, k);
    txt += mk(b, d, num(cv(n, k), 0), num(sv(n, k), 0)) + " 0 0\n";
  };
  if (o) for (int k = 0; k <= D; k++) for (int n = k; n <= D; n++) rec(n, k);
  else for (int n = 0; n <= D; n++) for (int k = 0; k <= n; k++) rec(n, k);
  std::string fn = std::string(c.scratch()) + "/g.gfc";
  mc::write_file(fn.c_str(), txt);
  dso::Icgem g(fn.c_str());
  c.check(!g.parse_header() && g.degree() == D, "header, degree %d", g.degree());
  dso::HarmonicCoeffs h(l);
  for (int i = 0; i <= l; i++) for (int k = 0; k <= i; k++) { h.C(i, k) = 55; if (k) h.S(i, k) = 55; }
  int rc = g.parse_data(l, m, &h);
  c.step(); c.state(mc::Hash().i(D).i(l).i(m).i(rc).i(bl).i(bm).i(o).i(f).h); c.outcome(rc);
  bool need = z && bl <= l && bm <= m;
  c.check((rc != 0) == need, "status %d, every required coefficient is %s", rc, need ? "not there" : "there");
  if (!rc) for (int i = 0; i <= l; i++) for (int k = 0; k <= std::min(i, m); k++)
    c.check(h.C(i, k) == cv(i, k) && (!k || h.S(i, k) == sv(i, k)), "(%d,%d) loaded as %g %g", i, k, h.C(i, k), k ? h.S(i, k) : 0.);
}
#ifndef VAR_COPY
// the one-call entry point: load, size and optionally de-normalise; repeated on one set
MC_SCENARIO("entry-point", 0, 0) {
  std::string base = "product_type gravity_field\nmodelname M\nearth_gravity_constant 3.98e14\nradius 6378136.0\nerrors formal\n";
  std::string fn[3]; // 2: the last record is damaged
  for (int f = 0; f < 3; f++) {
    fn[f] = std::string(c.scratch()) + "/e" + std::to_string(f) + ".gfc";
    int D = f == 1 ? 4 : 3;
    std::string txt = base + "max_degree " + std::to_string(D) + (f == 1 ? "\nnorm unnormalized" : "") + "\nend_of_head\n";
    for (int n = 0; n <= D; n++) for (int k = 0; k <= n; k++) if (!(f == 1 && n == 1)) txt += mk(std::to_string(n), std::to_string(k), num(cv(n, k) * (f == 1 ? 3 : 1), 0), f == 2 && n == 3 && k == 3 ? "-" : num(sv(n, k) * (f == 1 ? 3 : 1), 0)) + "\n";
    mc::write_file(fn[f].c_str(), txt);
  }
  size_t before = mc::heap_live();
  {
    dso::HarmonicCoeffs h;
    for (int step = 0; step < (c.thorough() ? 3 : 2); step++) {
      int f = c.choose(4, "file"), l = c.choose(6, "degree"), m = c.choose(l + 2, "order"), dn = c.choose(2, "denormalize");
      int D = f == 3 ? -1 : f == 1 ? 4 : 3;
      c.note("file %d degree %d order %d denormalize %d", f, l, m, dn);
      int rc = dso::parse_gravity_model(f == 3 ? (std::string(c.scratch()) + "/none").c_str() : fn[f].c_str(), l, m, h, dn);
      c.step(); c.outcome(mc::Hash().i(rc).h); c.state(mc::Hash().i(step).i(f).i(l).i(m).i(dn).i(rc).h);
      bool legal = l <= D && m <= l && !(f == 2 && m == 3);
      c.check((rc == 0) == legal, "status %d for %s request", rc, legal ? "a legal" : "an illegal");
      if (rc) continue;
      c.check(h.degree() == l, "degree %d, requested %d", h.degree(), l);
      c.check(h.normalized() == (f != 1 && !dn), "normalisation flag %d", h.normalized());
      for (int n = 0; n <= l; n++) for (int k = 0; k <= std::min(n, m); k++) {
        double fac = f != 1 && dn && n ? std::sqrt((k ? 2. : 1.) * (2 * n + 1) * std::tgamma(n - k + 1.) / std::tgamma(n + k + 1.)) : 1;
        double s = (f == 1 ? 3 : 1) * (f == 1 && n == 1 ? 0 : 1);
        c.check(mc::close(h.C(n, k), s * cv(n, k) * fac, 1e-12), "C(%d,%d)=%g", n, k, h.C(n, k));
        if (k) c.check(mc::close(h.S(n, k), s * sv(n, k) * fac, 1e-12), "S(%d,%d)=%g", n, k, h.S(n, k));
      }
    }
  }
  c.check(mc::heap_live() <= before, "leak");
}
#endif
} // namespace
#ifndef VAR_COPY
MC_PROPERTY("G04", "model_checking",
  "a complete ordered data section and every combination of at most the budgeted number of deviations: line order, per-line form (25 forms: omission, duplicates, Fortran exponents, extra columns, bad indices, bad values, foreign records), early end, missing final newline; crossed with every requested degree/order and set size; every byte prefix; model degrees 12 and 23 (and 105 in the thorough tier) with every requested degree from 7, orders around 8 to 11, two record orders, three index formats and one missing coefficient; every pair of loads through the one-call entry point",
  "model degree 1..2 with 2 deviations and 3 with 1 (quick) / 1..2 with 3 and 3..4 with 2 (thorough)",
  "a file cut inside the digits of the last required value cannot be detected", "a repeated coefficient may be refused or ignored, but what is loaded is stated by the file")
#endif
