#pragma once
namespace iers2010 {
constexpr double DPI = 3.1415926535897932384626433832795, D2PI = 6.283185307179586476925286766559;
constexpr double DAS2R = 4.848136811095359935899141e-6, DMAS2R = DAS2R / 1e3, DR2AS = 206264.8062470963551564734, TURNAS = 1296000e0;
constexpr double OmegaEarth = 7.292115e-5, Re = 6378136.6e0, GMe = 3.986004418e14, AU = 1.49597870700e11, C = 299792458e0, Rs = 6.957e8;
constexpr double DJ00 = 2451545e0, DJC = 36525e0;
} // namespace iers2010
