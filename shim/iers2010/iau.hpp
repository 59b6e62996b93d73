#pragma once
#include "iers2010/iersc.hpp"
#include "matvec/matvec.hpp"
#include "eigen3/Eigen/Eigen"
#include <cmath>
namespace iers2010 {
namespace sofa {
// IERS 2003 fundamental arguments [rad]
inline double shim_arg(double a) noexcept { return std::fmod(a, TURNAS) * DAS2R; }
inline double fal03(double t) noexcept { return shim_arg(485868.249036 + t * (1717915923.2178 + t * (31.8792 + t * (0.051635 + t * -0.00024470)))); }
inline double falp03(double t) noexcept { return shim_arg(1287104.793048 + t * (129596581.0481 + t * (-0.5532 + t * (0.000136 + t * -0.00001149)))); }
inline double faf03(double t) noexcept { return shim_arg(335779.526232 + t * (1739527262.8478 + t * (-12.7512 + t * (-0.001037 + t * 0.00000417)))); }
inline double fad03(double t) noexcept { return shim_arg(1072260.703692 + t * (1602961601.2090 + t * (-6.3706 + t * (0.006593 + t * -0.00003169)))); }
inline double faom03(double t) noexcept { return shim_arg(450160.398036 + t * (-6962890.5431 + t * (7.4722 + t * (0.007702 + t * -0.00005939)))); }
inline double era00(double dj1, double dj2) noexcept {
  const double t = (dj1 - DJ00) + dj2, f = std::fmod(dj1, 1.0) + std::fmod(dj2, 1.0);
  double a = std::fmod(D2PI * (f + 0.7790572732640 + 0.00273781191135448 * t), D2PI);
  return a < 0 ? a + D2PI : a;
}
inline double sp00(double dj1, double dj2) noexcept { return -47e-6 * (((dj1 - DJ00) + dj2) / DJC) * DAS2R; }
// leading terms only: what the callers do with X, Y, s is checked, not the series
inline void xy06(double dj1, double dj2, double &x, double &y) noexcept {
  const double t = ((dj1 - DJ00) + dj2) / DJC, om = faom03(t);
  x = (-0.016617 + 2004.191898 * t - 6.844318 * std::sin(om)) * DAS2R;
  y = (-0.006951 - 0.025896 * t + 9.205236 * std::cos(om)) * DAS2R;
}
inline double s06(double dj1, double dj2, double x, double y) noexcept { return -x * y / 2 + 94e-6 * DAS2R + 3808.65e-6 * DAS2R * ((dj1 - DJ00) + dj2) / DJC; }
inline Eigen::Matrix<double, 3, 3> shim_R(int ax, double a) noexcept {
  const double c = std::cos(a), s = std::sin(a); const int i = (ax + 1) % 3, j = (ax + 2) % 3;
  Eigen::Matrix<double, 3, 3> m = Eigen::Matrix<double, 3, 3>::Identity();
  m(i, i) = c; m(i, j) = s; m(j, i) = -s; m(j, j) = c; return m;
}
inline Eigen::Matrix<double, 3, 3> c2ixys_e(double x, double y, double s) noexcept {
  const double r2 = x * x + y * y, e = r2 > 0 ? std::atan2(y, x) : 0, d = std::atan(std::sqrt(r2 / (1 - r2)));
  return shim_R(2, -(e + s)) * shim_R(1, d) * shim_R(2, e);
}
inline Eigen::Matrix<double, 3, 3> pom00_e(double xp, double yp, double sp) noexcept {
  return shim_R(0, -yp) * shim_R(1, -xp) * shim_R(2, sp);
}
inline dso::Mat3x3 shim_M(const Eigen::Matrix<double, 3, 3> &m) noexcept { dso::Mat3x3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = m(i, j); return r; }
inline dso::Mat3x3 pom00(double xp, double yp, double sp) noexcept { return shim_M(pom00_e(xp, yp, sp)); }
inline dso::Mat3x3 c2i06a(double dj1, double dj2) noexcept { double x, y; xy06(dj1, dj2, x, y); return shim_M(c2ixys_e(x, y, s06(dj1, dj2, x, y))); }
} // namespace sofa
namespace iau { inline dso::Mat3x3 pnm06(double, double) noexcept { return dso::Mat3x3(); } }
} // namespace iers2010
