// S01: attitude look-ups.
#include "mc.hpp"
#include "satellites/jason3_quaternions.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <memory>
#include <unistd.h>
namespace {
struct F { std::string n; ~F() { ::unlink(n.c_str()); } };
using Q = std::array<double, 4>; // w x y z
struct Rec { double t; Q q; std::string line; };
const double STEP[3][10] = {{0, 32, 64, 96, 128, 160, 192, 224, 256, 288}, {0, 1, 33, 34, 66, 67.5, 99, 100, 132, 133}, {0, 30, 60, 90, 3690, 3720, 3750, 90000, 90030, 90060}};
Q quat(int kind, int i) {
  double a = kind == 0 ? 0.05 * i : kind == 1 ? 1.3 * i : 2.9 * i, x = 1, y = 2, z = -2; if (kind == 1) { x = i % 3; y = 1; z = 2; } double r = std::sqrt(x * x + y * y + z * z); Q q{std::cos(a / 2), std::sin(a / 2) * x / r, std::sin(a / 2) * y / r, std::sin(a / 2) * z / r};
  if (kind == 1 && i % 2) for (auto &v : q) v = -v; if (kind == 2 && i % 3 == 2) q = quat(2, i - 1); return q;
}
std::vector<Rec> records(int n, int sp, int kind) {
  std::vector<Rec> r; for (int i = 0; i < n; i++) {
    double s = 86400 - 100 + STEP[sp][i]; int day = 1 + (int)(s / 86400); double sod = s - 86400 * (day - 1); int h = sod / 3600, m = (sod - h * 3600) / 60; double ss = sod - h * 3600 - m * 60; char d[32]; snprintf(d, sizeof d, "2020/03/%02d %02d:%02d:%06.3f", day, h, m, ss);
    Rec x; x.q = quat(kind, i); x.t = 58909 + (s + 37) / 86400; char b[300]; snprintf(b, sizeof b, "%s\t1234567890\t%.17g\t0001\t1234567891\t%.17g\t0002\t1234567892\t%.17g\t0003\t1234567893\t%.17g\t", d, x.q[0], x.q[1], x.q[2], x.q[3]); x.line = b; r.push_back(x); }
  return r;
}
Q slerp(const Q &a, Q b, double f) { long double d = 0; for (int i = 0; i < 4; i++) d += (long double)a[i] * b[i]; if (d < 0) { d = -d; for (auto &v : b) v = -v; } long double th = d >= 1 ? 0 : acosl(d), w0 = 1 - f, w1 = f; if (th > 1e-9L) { w0 = sinl((1 - f) * th) / sinl(th); w1 = sinl(f * th) / sinl(th); } Q q; long double n = 0; for (int i = 0; i < 4; i++) { q[i] = w0 * a[i] + w1 * b[i]; n += (long double)q[i] * q[i]; } for (auto &v : q) v /= sqrtl(n); return q; }
double dist(const Eigen::Quaterniond &q, const Q &w) { double d1 = 0, d2 = 0; const double v[4] = {q.w(), q.x(), q.y(), q.z()}; for (int i = 0; i < 4; i++) { d1 = std::max(d1, std::fabs(v[i] - w[i])); d2 = std::max(d2, std::fabs(v[i] + w[i])); } return std::min(d1, d2); }
// where a query falls: 0 before the first record, 1 past the last, otherwise between k and k+1
struct At { int where, k; double t, f; };
At at(const std::vector<Rec> &r, int code) { // code: 4 per record (at, just above, quarter, just below the next), two outside
  const int n = r.size(); if (code == 4 * n) return {0, 0, r[0].t - 1e-4, 0}; if (code == 4 * n + 1) return {1, 0, r[n - 1].t + 1e-4, 0};
  int k = code / 4, w = code % 4; if (k == n - 1) { double t = r[k].t; if (w == 0) return {2, k - 1, t, 1}; return {1, 0, t + 0.001 * w, 0}; }
  double t0 = r[k].t, t1 = r[k + 1].t, t = w == 0 ? t0 : w == 1 ? std::nextafter(t0, 1e9) : w == 2 ? t0 + 0.25 * (t1 - t0) : std::nextafter(t1, 0); return {2, k, t, (t - t0) / (t1 - t0)};
}
void run(mc::Ctx &c, bool two) {
  const int n = 5 + c.choose(c.thorough() ? 6 : 4, "records"), sp = c.choose(3, "spacing"), kind = two ? 1 : c.choose(3, "rotation"); auto r = records(n, sp, kind); std::string t = "# comment\n"; for (size_t i = 0; i < r.size(); i++) { if (i % 3 == 1) t += "# another\n"; t += r[i].line + "\n"; }
  F f{std::string(c.scratch()) + "/q.txt"}; mc::write_file(f.n.c_str(), t); std::unique_ptr<dso::JasonQuaternionHunter> h[2]; h[0].reset(new dso::JasonQuaternionHunter(f.n.c_str())); if (two) h[1].reset(new dso::JasonQuaternionHunter(f.n.c_str())); int lo[2] = {0, 0};
  const int len = c.thorough() ? (two ? 5 : 4) : (two ? 4 : 3); std::string tr;
  for (int s = 0; s < len; s++) {
    int w = two ? c.choose(2, "which") : 0; int qi = two ? c.choose(n + 1, "query") : 0; At a = two ? at(r, qi < n - 1 ? qi * 4 + 2 : 3 * n + 1 + qi) : at(r, c.choose(4 * n + 2, "query")); Eigen::Quaterniond q(9, 9, 9, 9); int rc = h[w]->get_at(a.t, q); c.step(); tr += std::to_string(a.k) + "/" + std::to_string(a.f) + " ";
    if (a.where != 2) { c.check(rc != 0, "%s the file, yet status 0", a.where ? "past" : "before"); if (a.where == 1) lo[w] = n - 5; continue; }
    if (a.t < r[lo[w]].t) { if (rc) continue; } // behind what is kept: refused, or right
    else c.check(rc == 0, "query in interval %d of %d refused (kept from %d): %s", a.k, n, lo[w], tr.c_str());
    Q want = slerp(r[a.k].q, r[a.k + 1].q, a.f); const double tol = 3e-11 / (r[a.k + 1].t - r[a.k].t) + 1e-12; c.check(dist(q, want) <= tol, "interval %d at %.6f: (%.9f %.9f %.9f %.9f) instead of (%.9f %.9f %.9f %.9f): %s", a.k, a.f, q.w(), q.x(), q.y(), q.z(), want[0], want[1], want[2], want[3], tr.c_str());
    c.check(std::fabs(q.norm() - 1) < 1e-12, "norm %.15f", q.norm()); if (a.t > r[lo[w] + 4].t) lo[w] = a.k - 3;
  }
  c.state(mc::Hash().s(tr.c_str()).i(sp).i(kind).i(n).h); c.outcome(lo[0] * 100 + lo[1]);
}
MC_SCENARIO("histories", 0, 0) { run(c, false); }
MC_SCENARIO("two readers", 0, 0) { run(c, true); }
MC_SCENARIO("files", 1, 2) {
  const int n = c.choose(c.thorough() ? 9 : 8, "records"), sp = c.choose(2, "spacing"); auto r = records(n, sp, 0); std::vector<int> bad(n, 0); std::string t; const bool last = !c.deviate(2, "no final newline");
  for (int i = 0; i < n; i++) { std::string s = r[i].line; const int L = s.size(); int d = c.deviate(1 + 12 + L, "record"); std::string pre;
    if (d == 1) pre = "# a comment\n"; if (d == 2) pre = "# " + std::string(250, 'x') + "\n"; if (d == 3) { s = ""; bad[i] = 2; } if (d == 4) { s[5] = 'x'; bad[i] = 1; } if (d == 5) { s[36] = 'x'; bad[i] = 1; } if (d == 6) { s = "2020/13/01" + s.substr(10); bad[i] = 1; } if (d == 7) { s.pop_back(); bad[i] = 2; } if (d == 8) { s.pop_back(); s += 'x'; bad[i] = 1; }
    if (d == 9) { s += std::string(250, 'y'); bad[i] = 2; } if (d == 10) { size_t p = s.rfind("\t1234567893"); s = s.substr(0, p) + s.substr(p + 11); bad[i] = 1; } if (d == 11) s += "0004"; if (d == 12) pre = "#\n#\n"; if (d >= 13) { int cut = d - 13; s = s.substr(0, cut); bad[i] = 1; if (i == n - 1 && !last) bad[i] = 1; }
    t += pre + s + (i + 1 < n || last ? "\n" : ""); }
  F f{std::string(c.scratch()) + "/f.txt"}; mc::write_file(f.n.c_str(), t); mc::dirty_stack('1'); std::unique_ptr<dso::JasonQuaternionHunter> h; bool ok = true; try { h.reset(new dso::JasonQuaternionHunter(f.n.c_str())); } catch (std::exception &) { ok = false; } c.step();
  int first = n, firm = n; for (int i = n; i-- > 0;) { if (bad[i]) first = i; if (bad[i] == 1) firm = i; }
  if (firm < 5 || n < 5) { if (ok && n >= 5) c.fail("a malformed record among the first five was accepted\n%s", t.c_str()); if (!ok) { c.outcome(0); return; } }
  if (!ok) { c.check(first < 5, "refused although the first records are well-formed\n%s", t.c_str()); c.outcome(0); return; }
  if (n < 2) { c.fail("%d records accepted", n); return; }
  bool failed = false; for (int k = 0; k + 1 < n; k++) { double tq = r[k].t + 0.25 * (r[k + 1].t - r[k].t); Eigen::Quaterniond q(9, 9, 9, 9); int rc = h->get_at(tq, q); c.step(); 
    if (rc) { c.check(first <= k + 1, "query in interval %d refused\n%s", k, t.c_str()); failed = true; continue; }
    if (firm <= k + 1) { c.check(failed || k > firm, "the record that is malformed was used\n%s", t.c_str()); int a = k, b = k + 1; while (a >= 0 && bad[a] == 1) a--; while (b < n && bad[b] == 1) b++; c.check(a >= 0 && b < n, "made up"); auto near = [&](int x, int y) { return dist(q, slerp(r[x].q, r[y].q, (tq - r[x].t) / (r[y].t - r[x].t))) < 1e-6; }; bool some = false; for (int x = 0; x <= k; x++) for (int y = k + 1; y < n; y++) some |= near(x, y); c.check(some, "a value of no two records\n%s", t.c_str()); continue; }
    auto w = slerp(r[k].q, r[k + 1].q, 0.25); bool g = dist(q, w) < 1e-6; if (!g && first <= k + 1) for (int x = 0; x <= k; x++) for (int y = k + 1; y < n; y++) g |= dist(q, slerp(r[x].q, r[y].q, (tq - r[x].t) / (r[y].t - r[x].t))) < 1e-6;
    c.check(g, "interval %d: wrong value\n%s", k, t.c_str()); }
  c.state(mc::Hash().s(t.c_str()).h); c.outcome(1 + n);
}
} // namespace
MC_PROPERTY("S01", "model_checking",
  "every sequence of queries (at every record, just above and below it, between records, before and past the file) over files of several lengths, spacings (regular, irregular, gaps, across midnight) and rotations (small, large, opposite signs, none); every interleaving of queries on two readers of one file; every file with up to the stated number of damages (every cut, garbage in any field, impossible dates, blank, over-long, comments, no final newline)",
  "5..8 records, 3 queries, 4 over two readers, 1 damage (quick) / 5..10, 4, 5, 2",
  "the look-up goes forward, as documented: behind the records it keeps it may refuse, but not answer wrongly; a file of fewer records than it keeps (five) may be refused; after a malformed record was reported, later queries may refuse or go by the records around it",
  "angles of solar panels have no reader in this repository",
  "dates are parsed by a stand-in for the external datetime library")
