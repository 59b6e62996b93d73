#pragma once
#include "iers2010/iersc.hpp"
#include "iers2010/iau.hpp"
#include <cmath>
namespace iers2010 {
// small deterministic stand-ins: linear/periodic in the argument so that a
// harness can tell whether they were applied, with which sign, and how often
inline int rg_zont2(double t, double &dut, double &dlod, double &domega) noexcept {
  const double a = 100e0 * t; dut = 1e-3 + 1e-4 * std::sin(a); dlod = 2e-4 + 1e-5 * std::cos(a); domega = -3e-12 + 1e-13 * std::sin(a); return 0;
}
namespace interp {
inline int pmut1_oceans(double t, double &cx, double &cy, double &cdut, double &clod) noexcept {
  const double a = 37e0 * t; cx = 3e-5 + 1e-6 * std::sin(a); cy = -4e-5 + 1e-6 * std::cos(a); cdut = 5e-6 * (1 + 0.1 * std::sin(a)); clod = 6e-6 * (1 + 0.1 * std::cos(a)); return 0;
}
inline int pm_gravi(double t, double &cx, double &cy) noexcept {
  const double a = 53e0 * t; cx = 7e-6 * (1 + 0.1 * std::sin(a)); cy = -8e-6 * (1 + 0.1 * std::cos(a)); return 0;
}
// windowed Lagrange interpolation; index < 0: search; status != 0 outside the table
inline int lagint(const double *x, const double *y, int n, double xint, double &yout, int &idx, int order = 3) noexcept {
  const int window = order + 1, half = window / 2;
  yout = 0;
  if (n < window) return 1;
  if (!(xint >= x[0] && xint <= x[n - 1])) return 2;
  int k = idx;
  if (k < 0 || k >= n - 1 || !(x[k] <= xint && xint <= x[k + 1])) { k = 0; while (k < n - 2 && xint >= x[k + 1]) ++k; }
  idx = k;
  int a = k - half + 1;
  if (a < 0 || a + window > n) return 3; // not enough nodes around the epoch
  for (int m = a; m < a + window; m++) {
    double term = y[m];
    for (int j = a; j < a + window; j++) if (j != m) term *= (xint - x[j]) / (x[m] - x[j]);
    yout += term;
  }
  return 0;
}
} // namespace interp
} // namespace iers2010
