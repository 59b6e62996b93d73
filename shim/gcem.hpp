#pragma once
namespace gcem {
constexpr double asin(double x) { return __builtin_asin(x); }
constexpr double acos(double x) { return __builtin_acos(x); }
constexpr double tan(double x) { return __builtin_tan(x); }
constexpr double cos(double x) { return __builtin_cos(x); }
constexpr double sin(double x) { return __builtin_sin(x); }
constexpr double sqrt(double x) { return __builtin_sqrt(x); }
constexpr double pow(double x, double y) { return __builtin_pow(x, y); }
} // namespace gcem
