#pragma once
#include <cmath>
namespace dso {
constexpr const double DPI = 3.1415926535897932384626433832795;
constexpr const double D2PI = 6.283185307179586476925286766559;
template <class T = double> constexpr T deg2rad(T d) noexcept { return d * (T)DPI / (T)180; }
template <class T = double> constexpr T rad2deg(T r) noexcept { return r * (T)180 / (T)DPI; }
template <class T = double> constexpr T arcsec2rad(T s) noexcept { return s * (T)DPI / ((T)180 * 3600); }
template <class T = double> constexpr T rad2sec(T r) noexcept { return r * (T)180 * 3600 / (T)DPI; }
enum class AngleUnit { Radians, Degrees, Seconds };
template <class T, AngleUnit U> T norm_angle(T a) noexcept {
  const T full = U == AngleUnit::Radians ? (T)D2PI : U == AngleUnit::Degrees ? (T)360 : (T)(360 * 3600);
  T r = std::fmod(a, full);
  if (r < 0) r += full;
  return r >= full ? 0 : r;
}
} // namespace dso
