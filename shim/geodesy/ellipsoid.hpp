#pragma once
#include "geodesy/units.hpp"
namespace dso {
enum class ellipsoid { grs80, wgs84, pz90 };
template <ellipsoid E> struct ellipsoid_traits {};
template <> struct ellipsoid_traits<ellipsoid::grs80> { static constexpr double a{6378137e0}, f{1e0 / 298.257222101e0}; };
template <> struct ellipsoid_traits<ellipsoid::wgs84> { static constexpr double a{6378137e0}, f{1e0 / 298.257223563e0}; };
template <ellipsoid E> constexpr double semi_major() noexcept { return ellipsoid_traits<E>::a; }
template <ellipsoid E> constexpr double eccentricity_squared() noexcept { return (2 - ellipsoid_traits<E>::f) * ellipsoid_traits<E>::f; }
template <ellipsoid E> constexpr double mean_earth_radius() noexcept { return ellipsoid_traits<E>::a * (1 - ellipsoid_traits<E>::f / 3); }
} // namespace dso
