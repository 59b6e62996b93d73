#pragma once
#include "geodesy/ellipsoid.hpp"
#include "matvec/matvec.hpp"
#include "eigen3/Eigen/Eigen"
namespace dso {
// cartesian -> longitude, latitude, height (longitude first: callers use [0] lon, [1] lat, [2] height)
template <ellipsoid E> void car2ell_core(double x, double y, double z, double &lon, double &lat, double &h) noexcept {
  const double a = semi_major<E>(), e2 = eccentricity_squared<E>(), p = std::sqrt(x * x + y * y);
  lon = std::atan2(y, x);
  lat = std::atan2(z, p * (1 - e2));
  for (int i = 0; i < 20; i++) {
    double s = std::sin(lat), N = a / std::sqrt(1 - e2 * s * s);
    lat = std::atan2(z + e2 * N * s, p);
  }
  double s = std::sin(lat), c = std::cos(lat), N = a / std::sqrt(1 - e2 * s * s);
  h = c > 0.5 ? p / c - N : z / s - N * (1 - e2);
}
template <ellipsoid E> Eigen::Matrix<double, 3, 1> car2ell(const Eigen::Matrix<double, 3, 1> &r) noexcept {
  double lon, lat, h; car2ell_core<E>(r(0), r(1), r(2), lon, lat, h);
  return Eigen::Matrix<double, 3, 1>(lon, lat, h);
}
template <ellipsoid E> Vector3 car2ell(const Vector3 &r) noexcept {
  double lon, lat, h; car2ell_core<E>(r.x(), r.y(), r.z(), lon, lat, h);
  return Vector3({lon, lat, h});
}
} // namespace dso
