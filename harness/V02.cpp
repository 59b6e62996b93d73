// V02: table interpolators.
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <map>
#include <numeric>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <cstdio>
#include <limits>
#include <memory>
#include <vector>
namespace it {
#define main intrp_main
#include "var/intrp.cc"
#undef main
}
namespace {
MC_SCENARIO("tables", 0, 0) {
  int n = c.choose(c.thorough() ? 6 : 5, "size") + 1;
  static const double DX[] = {1e0, 0.25e0, 5e0, 1e-6};
  static const double Y[] = {0e0, 1e0, -2.5e0, 1e6};
  double *x = new double[n], *y = new double[n];
  std::unique_ptr<double[]> gx(x), gy(y);
  int nd = c.thorough() ? 3 : 3;
  double s = c.flip("start") ? -3e0 : 0e0;
  for (int i = 0; i < n; i++) { if (i) s += DX[c.choose(i < 4 ? nd : 2, "spacing")]; x[i] = s; y[i] = Y[c.choose(i < 3 ? 3 : 2, "ordinate")]; }
  for (int i = 0; i < n; i++) c.note("(%g,%g)", x[i], y[i]);
  it::NearestNeighborInterpolator nn(x, y, n);
  it::LinearInterpolator ll(x, y, n);
  it::QuadraticInterpolator qq(x, y, n);
  struct Arg { double v; int seg, kind; };
  std::vector<Arg> A;
  const double inf = std::numeric_limits<double>::infinity();
  for (int i = 0; i < n; i++) {
    A.push_back({x[i], i, 0});
    if (i + 1 < n) { double d = x[i + 1] - x[i]; for (double t : {0.25, 0.5, 0.75, 1e-9}) A.push_back({x[i] + t * d, i, 1}); A.push_back({std::nextafter(x[i], inf), i, 1}); A.push_back({std::nextafter(x[i + 1], -inf), i, 1}); }
  }
  for (double v : {std::nextafter(x[0], -inf), x[0] - 1, x[0] - 1e300, -inf}) A.push_back({v, 0, 2});
  for (double v : {std::nextafter(x[n - 1], inf), x[n - 1] + 1, x[n - 1] + 1e300, inf}) A.push_back({v, n - 1, 3});
  mc::Hash h; h.i(n);
  for (auto &a : A) {
    for (int which = 0; which < 3; which++) {
      if (which == 2 && n == 2 && a.kind == 1) continue; // a parabola needs three points
      if (which == 2 && n == 2 && a.kind == 0 && a.seg == 0) {}
      int st = -77;
      double v = which == 0 ? nn.value_at(a.v, st) : which == 1 ? ll.value_at(a.v, st) : qq.value_at(a.v, st);
      static const char *W[] = {"nearest", "linear", "quadratic"};
      c.step(); h.i(st).q(v);
      if (a.kind == 2) { c.check(st == 1 && v == y[0], "%s at %.17g (below): %g status %d", W[which], a.v, v, st); continue; }
      if (a.kind == 3) { c.check(st == 2 && v == y[n - 1], "%s at %.17g (above): %g status %d", W[which], a.v, v, st); continue; }
      c.check(st == 0, "%s at %.17g in range: status %d", W[which], a.v, st);
      int i = a.seg;
      if (a.kind == 0) { c.check(mc::close(v, y[i], 1e-12, 1e-12), "%s at node %d: %.17g", W[which], i, v); continue; }
      double d0 = a.v - x[i], d1 = x[i + 1] - a.v;
      if (which == 0) {
        bool tie = std::fabs(d0 - d1) <= 1e-12 * (d0 + d1);
        c.check(tie ? (v == y[i] || v == y[i + 1]) : v == (d0 < d1 ? y[i] : y[i + 1]), "nearest at %.17g: %g", a.v, v);
      } else if (which == 1) {
        double w = y[i] + (y[i + 1] - y[i]) * (d0 / (x[i + 1] - x[i]));
        c.check(mc::close(v, w, 1e-9, 1e-9 * (std::fabs(y[i]) + std::fabs(y[i + 1]))), "linear at %.17g: %g instead of %g", a.v, v, w);
      } else {
        auto par = [&](int k) {
          double X[3] = {x[i], x[i + 1], x[k]}, Yv[3] = {y[i], y[i + 1], y[k]}, r = 0;
          for (int p = 0; p < 3; p++) { double t = Yv[p]; for (int q = 0; q < 3; q++) if (q != p) t *= (a.v - X[q]) / (X[p] - X[q]); r += t; }
          return r;
        };
        int lo = i - 1, hi = i + 2; bool ok = false; double sc = std::fabs(y[i]) + std::fabs(y[i + 1]);
        bool useL = lo >= 0, useH = hi < n;
        if (useL && useH) { double a0 = a.v - x[lo], a1 = x[hi] - a.v; if (std::fabs(a0 - a1) > 1e-9 * (a0 + a1)) (a0 < a1 ? useH : useL) = false; }
        if (useL) sc += std::fabs(y[lo]) * 100, ok = ok || mc::close(v, par(lo), 1e-7, 1e-7 * (sc + 1));
        if (useH) sc += std::fabs(y[hi]) * 100, ok = ok || mc::close(v, par(hi), 1e-7, 1e-7 * (sc + 1));
        c.check(ok, "quadratic at %.17g: %g", a.v, v);
      }
    }
  }
  int st = 0; nn.value_at(std::nan(""), st); c.check(st != 0, "nearest at NaN: status 0");
  st = 0; ll.value_at(std::nan(""), st); c.check(st != 0, "linear at NaN: status 0");
  st = 0; qq.value_at(std::nan(""), st); c.check(st != 0, "quadratic at NaN: status 0");
  c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("V02", "model_checking",
  "every strictly increasing table over the spacing and ordinate alphabets, at every node, four interior points and the two neighbouring doubles of every interval, and eight points outside; each of the three interpolators against an independent formula; tables live in exactly sized heap blocks",
  "tables of 1..5 points (quick) / 1..6 (thorough)",
  "quadratic interpolation needs at least three points", "ties between equally near points may go either way")
