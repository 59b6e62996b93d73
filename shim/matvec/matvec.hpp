#pragma once
#include <cmath>
#include <cstring>
namespace dso {
struct Vector3 {
  double data[3]{0, 0, 0};
  Vector3() noexcept {}
  Vector3(const double (&d)[3]) noexcept { std::memcpy(data, d, sizeof data); }
  Vector3(double a, double b, double c) noexcept : data{a, b, c} {}
  static Vector3 to_vec3(const double *p) noexcept { return Vector3(p[0], p[1], p[2]); }
  double x() const noexcept { return data[0]; }
  double y() const noexcept { return data[1]; }
  double z() const noexcept { return data[2]; }
  double &x() noexcept { return data[0]; }
  double &y() noexcept { return data[1]; }
  double &z() noexcept { return data[2]; }
  double operator()(int i) const noexcept { return data[i]; }
  double &operator()(int i) noexcept { return data[i]; }
  double operator[](int i) const noexcept { return data[i]; }
  double &operator[](int i) noexcept { return data[i]; }
  double dot_product(const Vector3 &o) const noexcept { return data[0] * o.data[0] + data[1] * o.data[1] + data[2] * o.data[2]; }
  Vector3 cross_product(const Vector3 &o) const noexcept {
    return Vector3(y() * o.z() - z() * o.y(), z() * o.x() - x() * o.z(), x() * o.y() - y() * o.x());
  }
  double norm_squared() const noexcept { return dot_product(*this); }
  double norm() const noexcept { return std::sqrt(norm_squared()); }
  Vector3 normalize() const noexcept { return *this / norm(); }
  Vector3 operator*(double s) const noexcept { return Vector3(data[0] * s, data[1] * s, data[2] * s); }
  Vector3 operator/(double s) const noexcept { return Vector3(data[0] / s, data[1] / s, data[2] / s); }
  Vector3 operator+(const Vector3 &o) const noexcept { return Vector3(data[0] + o.data[0], data[1] + o.data[1], data[2] + o.data[2]); }
  Vector3 operator-(const Vector3 &o) const noexcept { return Vector3(data[0] - o.data[0], data[1] - o.data[1], data[2] - o.data[2]); }
  Vector3 operator-() const noexcept { return *this * -1e0; }
  Vector3 &operator+=(const Vector3 &o) noexcept { return *this = *this + o; }
  Vector3 &operator-=(const Vector3 &o) noexcept { return *this = *this - o; }
  Vector3 &operator*=(double s) noexcept { return *this = *this * s; }
  Vector3 &operator/=(double s) noexcept { return *this = *this / s; }
  double operator*(const Vector3 &o) const noexcept { return dot_product(o); }
};
inline Vector3 operator*(double s, const Vector3 &v) noexcept { return v * s; }
struct Mat3x3 { // row-major
  double data[9]{1, 0, 0, 0, 1, 0, 0, 0, 1};
  Mat3x3() noexcept {}
  Mat3x3(const double (&d)[9]) noexcept { std::memcpy(data, d, sizeof data); }
  double operator()(int i, int j) const noexcept { return data[3 * i + j]; }
  double &operator()(int i, int j) noexcept { return data[3 * i + j]; }
  Mat3x3 transpose() const noexcept { Mat3x3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = (*this)(j, i); return m; }
  Mat3x3 transpose_inplace() noexcept { return *this = transpose(); }
  Mat3x3 operator*(const Mat3x3 &o) const noexcept {
    Mat3x3 m;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += (*this)(i, k) * o(k, j); m(i, j) = s; }
    return m;
  }
  Vector3 operator*(const Vector3 &v) const noexcept {
    Vector3 r; for (int i = 0; i < 3; i++) r(i) = (*this)(i, 0) * v(0) + (*this)(i, 1) * v(1) + (*this)(i, 2) * v(2); return r;
  }
  static Mat3x3 RotZ(double a) noexcept { double c = std::cos(a), s = std::sin(a); return Mat3x3({c, s, 0, -s, c, 0, 0, 0, 1}); }
  static Mat3x3 RotX(double a) noexcept { double c = std::cos(a), s = std::sin(a); return Mat3x3({1, 0, 0, 0, c, s, 0, -s, c}); }
  static Mat3x3 RotY(double a) noexcept { double c = std::cos(a), s = std::sin(a); return Mat3x3({c, 0, -s, 0, 1, 0, s, 0, c}); }
};
} // namespace dso
