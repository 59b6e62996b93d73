// Solid spherical harmonics with first and second derivatives, from the closed
// form of the associated Legendre polynomials and second-order differentiation
// arithmetic in extended precision. No recursion is shared with the code.
#pragma once
#include <cmath>
#include <cstring>
#include <map>
#include <tuple>
#include <vector>
namespace sh {
using R = long double;
struct J { R v{0}, g[3]{0, 0, 0}, h[3][3]{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; };
inline J var(R x, int k) { J j; j.v = x; j.g[k] = 1; return j; }
inline J cst(R x) { J j; j.v = x; return j; }
inline J operator+(const J &a, const J &b) { J r; r.v = a.v + b.v; for (int i = 0; i < 3; i++) { r.g[i] = a.g[i] + b.g[i]; for (int k = 0; k < 3; k++) r.h[i][k] = a.h[i][k] + b.h[i][k]; } return r; }
inline J operator*(R s, const J &a) { J r; r.v = s * a.v; for (int i = 0; i < 3; i++) { r.g[i] = s * a.g[i]; for (int k = 0; k < 3; k++) r.h[i][k] = s * a.h[i][k]; } return r; }
inline J operator-(const J &a, const J &b) { return a + (R)-1 * b; }
inline J operator*(const J &a, const J &b) { J r; r.v = a.v * b.v; for (int i = 0; i < 3; i++) { r.g[i] = a.v * b.g[i] + a.g[i] * b.v; for (int k = 0; k < 3; k++) r.h[i][k] = a.v * b.h[i][k] + a.h[i][k] * b.v + a.g[i] * b.g[k] + a.g[k] * b.g[i]; } return r; }
inline J pw(const J &a, R p) { R f = std::pow(a.v, p), f1 = p * std::pow(a.v, p - 1), f2 = p * (p - 1) * std::pow(a.v, p - 2); J r; r.v = f; for (int i = 0; i < 3; i++) { r.g[i] = f1 * a.g[i]; for (int k = 0; k < 3; k++) r.h[i][k] = f1 * a.h[i][k] + f2 * a.g[i] * a.g[k]; } return r; }
// V + iW = Re^(n+1) (x+iy)^m (d^m P_n / dt^m)(z/r) / r^(n+m+1); the sum over the
// powers of z is written with the powers of r gathered: z^q / r^(q+n+m+1)
inline void term(int n, int m, R Re, const R *p, J &V, J &W) {
  J x = var(p[0] / Re, 0), y = var(p[1] / Re, 1), z = var(p[2] / Re, 2); // in units of Re
  J r2 = x * x + y * y + z * z, c = cst(1), s = cst(0), S = cst(0);
  for (int k = 0; k < m; k++) { J cc = c * x - s * y; s = c * y + s * x; c = cc; }
  for (int k = 0; 2 * k <= n - m; k++) { // P_n(t) = 2^-n sum (-1)^k C(n,k) C(2n-2k,n) t^(n-2k)
    R a = 1; for (int i = 1; i <= k; i++) a = a * (n - k + i) / i; // C(n,k)
    R b = 1; for (int i = 1; i <= n; i++) b = b * (n - 2 * k + i) / i; // C(2n-2k,n)
    R co = a * b / std::ldexp((R)1, n) * (k % 2 ? -1 : 1); int q = n - 2 * k; for (int i = 0; i < m; i++) co *= q - i; q -= m;
    J zp = cst(1); for (int i = 0; i < q; i++) zp = zp * z;
    S = S + co * zp * pw(r2, -(R)(q + n + m + 1) / 2);
  }
  V = c * S; W = s * S;
}
} // namespace sh
