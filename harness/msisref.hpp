// NRLMSISE-00 as a pure function of its inputs, in extended precision,
// from the published description (Picone et al., 2002) and coefficients.
#pragma once
#include "msis_tables.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
namespace msis {
using R = long double;
struct In { int doy; R sec, alt, lat, lon, lst, f107A, f107, ap, aph[7]; double sw[25], swc[25]; };
struct Out { R d[9], rho, rhod, t[2]; };
struct Tab {
  R ptm[10]{}, pdm[8][10]{}, pavgm[10]{}, pma[10][100]{}, pd[9][150]{}, ptl[4][100]{}, pdl[2][25]{}, pt[150]{}, ps[150]{};
  static void rd(const char *s, R *p) { while (*s) { char *e; long i = std::strtol(s, &e, 10); p[i] = std::strtod(e + 1, &e); s = e; while (*s == ' ') ++s; } }
  Tab() { rd(MSIS_PTM[0], ptm); rd(MSIS_PAVGM[0], pavgm); rd(MSIS_PT[0], pt); rd(MSIS_PS[0], ps); for (int i = 0; i < 8; i++) rd(MSIS_PDM[i], pdm[i]); for (int i = 0; i < 10; i++) rd(MSIS_PMA[i], pma[i]); for (int i = 0; i < 9; i++) rd(MSIS_PD[i], pd[i]); for (int i = 0; i < 4; i++) rd(MSIS_PTL[i], ptl[i]); for (int i = 0; i < 2; i++) rd(MSIS_PDL[i], pdl[i]); }
};
inline const Tab &tab() { static const Tab t; return t; }
const R DEG = 3.14159265358979323846264338327950288L / 180, DR = 1.72142e-2L, HR = 0.2618L, SR = 7.2722e-5L, RGAS = 1.380648813L * 6.0221407818L * 100;
struct Eval {
  const In &in; const Tab &T; R P[4][9]; R gs, re, dfa, apdf = 0, apt = 0;
  Eval(const In &i) : in(i), T(tab()) {
    R x = std::sin(in.lat * DEG), s = std::cos(in.lat * DEG);
    for (auto &r : P) for (R &v : r) v = 0;
    for (int m = 0; m < 4; m++) { R pmm = 1; for (int k = 1; k <= m; k++) pmm *= (2 * k - 1) * s; P[m][m] = pmm; P[m][m + 1] = (2 * m + 1) * x * pmm; for (int n = m + 2; n < 9; n++) P[m][n] = ((2 * n - 1) * x * P[m][n - 1] - (n + m - 1) * P[m][n - 2]) / (n - m); }
    R lat = in.sw[1] == 0 ? 45 : in.lat, c2 = std::cos(2 * lat * DEG); gs = 980.665L * (1 - 0.0026373L * c2); re = 2 * gs / (3.085462e-6L + 2.27e-9L * c2) * 1e-5L; dfa = in.f107A - 150;
  }
  R annual(R ph, int k = 1) const { return std::cos(k * DR * (in.doy - ph)); }
  R lonc(R d) const { return std::cos(in.lon * DEG * 1 - d * DEG); }
  // storm-time term
  R storm(const R *p) const { R e = std::exp(-10800 * std::fabs(p[51]) / (1 + p[138] * (45 - std::fabs(in.lat)))); e = std::min(e, 0.99999L); R a = std::max(p[24], 1e-4L); auto g0 = [&](R v) { return v - 4 + (p[25] - 1) * (v - 4 + (std::exp(-a * (v - 4)) - 1) / a); };
    R sum = 1 + (1 - std::pow(e, 19)) / (1 - e) * std::sqrt(e); const R *h = in.aph; return (g0(h[1]) + (g0(h[2]) * e + g0(h[3]) * e * e + g0(h[4]) * e * e * e + (g0(h[5]) * std::pow(e, 4) + g0(h[6]) * std::pow(e, 12)) * (1 - std::pow(e, 8)) / (1 - e))) / sum; }
  R G(const R *p) { // upper atmosphere expansion
    const double *sw = in.sw, *c = in.swc; R t[14] = {0}, df = in.f107 - in.f107A, cd14 = annual(p[13]); bool aps = sw[8] < 0;
    R q = p[19] * df + p[20] * df * df; t[0] = p[19] * df * (1 + p[59] * dfa) + p[20] * df * df + p[21] * dfa + p[29] * dfa * dfa; R f1 = 1 + (p[47] * dfa + q) * c[0], f2 = 1 + (p[49] * dfa + q) * c[0];
    t[1] = p[1] * P[0][2] + p[2] * P[0][4] + p[22] * P[0][6] + p[14] * P[0][2] * dfa * c[0] + p[26] * P[0][1]; t[2] = p[18] * annual(p[31]); t[3] = (p[15] + p[16] * P[0][2]) * annual(p[17], 2); t[4] = f1 * (p[9] * P[0][1] + p[10] * P[0][3]) * cd14; t[5] = p[37] * P[0][1] * annual(p[38], 2);
    R h = HR * in.lst, a5 = cd14 * c[4];
    if (sw[6] != 0) t[6] = f2 * ((p[3] * P[1][1] + p[4] * P[1][3] + p[27] * P[1][5] + p[11] * P[1][2] * a5) * std::cos(h) + (p[6] * P[1][1] + p[7] * P[1][3] + p[28] * P[1][5] + p[12] * P[1][2] * a5) * std::sin(h));
    if (sw[7] != 0) t[7] = f2 * ((p[5] * P[2][2] + p[41] * P[2][4] + (p[23] * P[2][3] + p[35] * P[2][5]) * a5) * std::cos(2 * h) + (p[8] * P[2][2] + p[42] * P[2][4] + (p[33] * P[2][3] + p[36] * P[2][5]) * a5) * std::sin(2 * h));
    if (sw[13] != 0) t[13] = f2 * ((p[39] * P[3][3] + (p[93] * P[3][4] + p[46] * P[3][6]) * a5) * std::sin(3 * h) + (p[40] * P[3][3] + (p[94] * P[3][4] + p[48] * P[3][6]) * a5) * std::cos(3 * h));
    if (!aps) { R a = in.ap - 4, k = p[43] < 0 ? 1e-5L : p[43]; apdf = a + (p[44] - 1) * (a + (std::exp(-k * a) - 1) / k); if (sw[8] != 0) t[8] = apdf * (p[32] + p[45] * P[0][2] + p[34] * P[0][4] + (p[100] * P[0][1] + p[101] * P[0][3] + p[102] * P[0][5]) * a5 + (p[121] * P[1][1] + p[122] * P[1][3] + p[123] * P[1][5]) * c[6] * std::cos(HR * (in.lst - p[124]))); }
    else if (std::fabs(p[51]) > 1e-6L) { apt = storm(p); t[8] = apt * (p[50] + p[96] * P[0][2] + p[54] * P[0][4] + (p[125] * P[0][1] + p[126] * P[0][3] + p[127] * P[0][5]) * a5 + (p[128] * P[1][1] + p[129] * P[1][3] + p[130] * P[1][5]) * c[6] * std::cos(HR * (in.lst - p[131]))); }
    if (sw[9] != 0 && in.lon > -1000) {
      if (sw[10] != 0) t[10] = (1 + p[80] * dfa * c[0]) * ((p[64] * P[1][2] + p[65] * P[1][4] + p[66] * P[1][6] + p[103] * P[1][1] + p[104] * P[1][3] + p[105] * P[1][5] + a5 * (p[109] * P[1][1] + p[110] * P[1][3] + p[111] * P[1][5])) * std::cos(in.lon * DEG) + (p[90] * P[1][2] + p[91] * P[1][4] + p[92] * P[1][6] + p[106] * P[1][1] + p[107] * P[1][3] + p[108] * P[1][5] + a5 * (p[112] * P[1][1] + p[113] * P[1][3] + p[114] * P[1][5])) * std::sin(in.lon * DEG));
      if (sw[11] != 0) t[11] = (1 + p[95] * P[0][1]) * (1 + p[81] * dfa * c[0]) * (1 + p[119] * P[0][1] * a5) * (p[68] * P[0][1] + p[69] * P[0][3] + p[70] * P[0][5]) * std::cos(SR * (in.sec - p[71])) + c[10] * (p[76] * P[2][3] + p[77] * P[2][5] + p[78] * P[2][7]) * std::cos(SR * (in.sec - p[79]) + 2 * in.lon * DEG) * (1 + p[137] * dfa * c[0]);
      if (sw[12] != 0) { if (!aps) t[12] = apdf * (c[10] * (1 + p[120] * P[0][1]) * (p[60] * P[1][2] + p[61] * P[1][4] + p[62] * P[1][6]) * lonc(p[63]) + c[10] * a5 * (p[115] * P[1][1] + p[116] * P[1][3] + p[117] * P[1][5]) * lonc(p[118]) + c[11] * (p[83] * P[0][1] + p[84] * P[0][3] + p[85] * P[0][5]) * std::cos(SR * (in.sec - p[75])));
        else if (p[51] != 0) t[12] = apt * (c[10] * (1 + p[132] * P[0][1]) * (p[52] * P[1][2] + p[98] * P[1][4] + p[67] * P[1][6]) * lonc(p[97]) + c[10] * a5 * (p[133] * P[1][1] + p[134] * P[1][3] + p[135] * P[1][5]) * lonc(p[136]) + c[11] * (p[55] * P[0][1] + p[56] * P[0][3] + p[57] * P[0][5]) * std::cos(SR * (in.sec - p[58]))); }
    }
    R s = p[30]; for (int i = 0; i < 14; i++) s += std::fabs(sw[i]) * t[i]; return s;
  }
  R L(const R *p) const { // lower atmosphere expansion; magnetic terms follow the last upper expansion
    const double *sw = in.sw, *c = in.swc; R t[14] = {0}, cd14 = annual(p[13]), a5 = cd14 * c[4], h = HR * in.lst;
    t[0] = p[21] * dfa; t[1] = p[1] * P[0][2] + p[2] * P[0][4] + p[22] * P[0][6] + p[26] * P[0][1] + p[14] * P[0][3] + p[59] * P[0][5]; t[2] = (p[18] + p[47] * P[0][2] + p[29] * P[0][4]) * annual(p[31]); t[3] = (p[15] + p[16] * P[0][2] + p[30] * P[0][4]) * annual(p[17], 2); t[4] = (p[9] * P[0][1] + p[10] * P[0][3] + p[20] * P[0][5]) * cd14; t[5] = p[37] * P[0][1] * annual(p[38], 2);
    if (sw[6] != 0) t[6] = (p[3] * P[1][1] + p[4] * P[1][3] + p[11] * P[1][2] * a5) * std::cos(h) + (p[6] * P[1][1] + p[7] * P[1][3] + p[12] * P[1][2] * a5) * std::sin(h);
    if (sw[7] != 0) t[7] = (p[5] * P[2][2] + p[41] * P[2][4] + (p[23] * P[2][3] + p[35] * P[2][5]) * a5) * std::cos(2 * h) + (p[8] * P[2][2] + p[42] * P[2][4] + (p[33] * P[2][3] + p[36] * P[2][5]) * a5) * std::sin(2 * h);
    if (sw[13] != 0) t[13] = p[39] * P[3][3] * std::sin(3 * h) + p[40] * P[3][3] * std::cos(3 * h);
    if (sw[8] > 0) t[8] = apdf * (p[32] + p[45] * P[0][2] * c[1]); if (sw[8] < 0) t[8] = apt * (p[50] + p[96] * P[0][2] * c[1]);
    if (sw[9] != 0 && sw[10] != 0 && in.lon > -1000) t[10] = (1 + P[0][1] * (p[80] * c[4] * annual(p[81]) + p[85] * c[5] * annual(p[86], 2)) + p[83] * c[2] * annual(p[84]) + p[87] * c[3] * annual(p[88], 2)) * ((p[64] * P[1][2] + p[65] * P[1][4] + p[66] * P[1][6] + p[74] * P[1][1] + p[75] * P[1][3] + p[76] * P[1][5]) * std::cos(in.lon * DEG) + (p[90] * P[1][2] + p[91] * P[1][4] + p[92] * P[1][6] + p[77] * P[1][1] + p[78] * P[1][3] + p[79] * P[1][5]) * std::sin(in.lon * DEG));
    R s = 0; for (int i = 0; i < 14; i++) s += std::fabs(sw[i]) * t[i]; return s;
  }
  R zeta(R z, R l) const { return (z - l) * (re + l) / (re + z); }
  // clamped cubic spline of inverse temperature over the nodes; value and integral at x
  struct Spl { int n; R x[5], y[5], m[5]; };
  static Spl spl(int n, const R *x, const R *y, R d0, R d1) { Spl s; s.n = n; R A[5][6] = {}; for (int i = 0; i < n; i++) { s.x[i] = x[i]; s.y[i] = y[i]; }
    for (int i = 0; i < n; i++) { if (i) { R h = x[i] - x[i - 1], q = (y[i] - y[i - 1]) / h; A[i][i - 1] += h / 6; A[i][i] += h / 3; A[i][5] -= q; } else A[i][5] -= d0; if (i < n - 1) { R h = x[i + 1] - x[i], q = (y[i + 1] - y[i]) / h; A[i][i + 1] += h / 6; A[i][i] += h / 3; A[i][5] += q; } else A[i][5] += d1; }
    for (int i = 0; i < n; i++) for (int k = i + 1; k < n; k++) { R f = A[k][i] / A[i][i]; for (int j = 0; j < 6; j++) A[k][j] -= f * A[i][j]; } for (int i = n - 1; i >= 0; i--) { R v = A[i][5]; for (int j = i + 1; j < n; j++) v -= A[i][j] * s.m[j]; s.m[i] = v / A[i][i]; } return s; }
  static R val(const Spl &s, R x) { int k = 0; while (k < s.n - 2 && x > s.x[k + 1]) ++k; R h = s.x[k + 1] - s.x[k], a = (s.x[k + 1] - x) / h, b = 1 - a; return a * s.y[k] + b * s.y[k + 1] + ((a * a * a - a) * s.m[k] + (b * b * b - b) * s.m[k + 1]) * h * h / 6; }
  static R integral(const Spl &s, R x) { R r = 0; for (int k = 0; k < s.n - 1; k++) { if (k && x <= s.x[k]) break; R e = k < s.n - 2 ? std::min(x, s.x[k + 1]) : x, h = s.x[k + 1] - s.x[k], a = (s.x[k + 1] - e) / h, b = 1 - a; auto F = [](R v) { return v * v * v * v / 4 - v * v / 2; }; r += h * ((1 - a * a) / 2 * s.y[k] + b * b / 2 * s.y[k + 1] + h * h / 6 * ((-(F(a) - F(1))) * s.m[k] + F(b) * s.m[k + 1])); } return r; }
  static R cut(R e) { return e > 50 ? 50 : e; }
  R zn1[5], tn1[5], gn1; // thermosphere nodes
  R U(R alt, R lb, R tinf, R tlb, R xm, R al, R s2, R *tz) const { R zl = T.ptm[5], za = zn1[0], z = std::max(alt, za), zg2 = zeta(z, zl), tt = tinf - (tinf - tlb) * std::exp(-s2 * zg2); *tz = tt; if (alt >= za && xm == 0) return tt;
    Spl s; R x = 0, zgd = 0; if (alt < za) { R dta = (tinf - tt) * s2 * std::pow((re + zl) / (re + za), 2), y[5], xs[5]; z = std::max(alt, zn1[4]); zgd = zeta(zn1[4], za); for (int k = 0; k < 5; k++) { xs[k] = zeta(zn1[k], za) / zgd; y[k] = 1 / (k ? tn1[k] : tt); } s = spl(5, xs, y, -dta / (tt * tt) * zgd, -gn1 / (tn1[4] * tn1[4]) * zgd * std::pow((re + zn1[4]) / (re + za), 2)); x = zeta(z, za) / zgd; *tz = 1 / val(s, x); }
    if (xm == 0) return *tz; R g = gs / std::pow(1 + zl / re, 2), gam = xm * g / (s2 * RGAS * tinf), e = std::exp(-s2 * gam * zg2); if (e > 50 || tt <= 0) e = 50; R d = lb * std::pow(tlb / tt, 1 + al + gam) * e; if (alt >= za) return d;
    R ga = xm * gs / std::pow(1 + za / re, 2) * zgd / RGAS; return d * std::pow(tt / *tz, 1 + al) * std::exp(-(*tz <= 0 ? 50 : cut(ga * integral(s, x)))); }
  static R cc(R z, R r, R h, R zh) { R e = (z - zh) / h; return std::exp(e > 70 ? 0 : e < -70 ? r : r / (1 + std::exp(e))); }
  static R cc2(R z, R r, R h, R zh, R h2) { R a = (z - zh) / h, b = (z - zh) / h2; return std::exp(a > 70 || b > 70 ? 0 : a < -70 && b < -70 ? r : r / (1 + (std::exp(a) + std::exp(b)) / 2)); }
  static R dn(R dd, R dm, R zhm, R xmm, R xm) { R a = zhm / (xmm - xm); if (dm <= 0 || dd <= 0) { if (dd == 0 && dm == 0) dd = 1; return dm == 0 ? dd : dm; } R y = a * std::log(dm / dd); return y < -10 ? dd : y > 10 ? dm : dd * std::pow(1 + std::exp(y), 1 / a); }
  R dm28 = 0, gend = 0;
  void thermo(R z, Out &o, int mass) { // at or above 72.5 km
    const R za = T.pdl[1][15]; zn1[0] = za; zn1[1] = 110; zn1[2] = 100; zn1[3] = 90; zn1[4] = 72.5L; const double *sw = in.sw; bool mix = sw[14] != 0;
    R tinf = T.ptm[0] * T.pt[0]; if (z > za) tinf *= 1 + sw[15] * G(T.pt); R g0 = T.ptm[3] * T.ps[0]; if (z > 72.5L) g0 *= 1 + sw[18] * G(T.ps); R tlb = T.ptm[1] * T.pd[3][0] * (1 + sw[16] * G(T.pd[3])), s2 = g0 / (tinf - tlb); o.t[0] = tinf;
    R b1 = T.ptm[6] * T.ptl[0][0], b2 = T.ptm[2] * T.ptl[1][0], b3 = T.ptm[7] * T.ptl[2][0], b4 = T.ptm[4] * T.ptl[3][0], bg = T.ptm[8] * T.pma[8][0]; bool low = z < 300; // variations end at 300 km
    tn1[1] = b1 / (low ? 1 - sw[17] * L(T.ptl[0]) : 1); tn1[2] = b2 / (low ? 1 - sw[17] * L(T.ptl[1]) : 1); tn1[3] = b3 / (low ? 1 - sw[17] * L(T.ptl[2]) : 1); tn1[4] = b4 / (low ? 1 - sw[17] * sw[19] * L(T.ptl[3]) : 1); gn1 = bg * (low ? 1 + sw[17] * sw[19] * L(T.pma[8]) : 1) * tn1[4] * tn1[4] / (b4 * b4); gend = gn1;
    for (R &v : o.d) v = 0; R tz; o.t[1] = U(z, 1, tinf, tlb, 0, 0, s2, &tz); o.t[1] = tz; if (!mass) return;
    const R *al = AL, xmm = T.pdm[2][4]; auto D = [&](R zz, R lb, R m, R a) { R q; return U(zz, lb, tinf, tlb, m, a, s2, &q); }; auto lb = [&](int row, int pdrow) { return T.pdm[row][0] * std::exp(sw[20] * G(T.pd[pdrow])) * T.pd[pdrow][0]; };
    const auto *M = T.pdm; const auto *Q = T.pdl; R zhf = Q[1][24] * (1 + sw[4] * Q[0][24] * std::sin(in.lat * DEG) * annual(T.pt[13])); (void)zhf;
    R l28 = lb(2, 2), zhm = M[2][3] * Q[1][5], b28 = D(M[2][2] * zhf, l28, 28 - xmm, al[2] - 1); o.d[2] = dm28 = D(z, l28, 28, al[2]); if (z <= 160 && mix) { dm28 = D(z, b28, xmm, al[2]); o.d[2] = dn(o.d[2], dm28, zhm, xmm, 28); } if (mass == 28) return;
    // one gas: diffusive density, turbopause, mixed density below the gas's limit
    auto gas = [&](int row, int pdrow, R m, R a, R lim, R &b, bool &in_) { R l = lb(row, pdrow), d = D(z, l, m, a); in_ = z <= lim && mix; if (in_) { b = D(M[row][2], l, m - xmm, a - 1); d = dn(d, D(z, b, xmm, 0), zhm, xmm, m); } return d; };
    R b; bool w;
    o.d[0] = gas(0, 0, 4, al[0], 200, b, w); if (w) o.d[0] *= cc(z, std::log(b28 * M[0][1] / b), M[0][5] * Q[1][1], M[0][4] * Q[1][0]);
    R sol = 1 + sw[0] * Q[0][23] * (in.f107A - 150);
    o.d[1] = gas(1, 1, 16, al[1], 300, b, w); if (w) o.d[1] *= cc2(z, M[1][1] * Q[1][16] * sol, M[1][5] * Q[1][3], M[1][4] * Q[1][2], M[1][5] * Q[1][4]) * cc(z, M[1][3] * Q[1][14], M[1][7] * Q[1][13], M[1][6] * Q[1][12]);
    o.d[3] = gas(3, 4, 32, al[3], 250, b, w); if (w) o.d[3] *= cc(z, std::log(b28 * M[3][1] / b), M[3][5] * Q[1][7], M[3][4] * Q[1][6]); if (mix) o.d[3] *= cc2(z, M[3][3] * Q[1][23] * sol, M[3][7] * Q[1][22], M[3][6] * Q[1][21], M[3][7] * Q[0][22]);
    o.d[4] = gas(4, 5, 40, al[4], 240, b, w); if (w) o.d[4] *= cc(z, std::log(b28 * M[4][1] / b), M[4][5] * Q[1][9], M[4][4] * Q[1][8]);
    o.d[6] = gas(5, 6, 1, al[6], 320, b, w); if (w) o.d[6] *= cc(z, std::log(b28 * M[5][1] * std::fabs(Q[1][17]) / b), M[5][5] * Q[1][11], M[5][4] * Q[1][10]) * cc(z, M[5][3] * Q[1][20], M[5][7] * Q[1][19], M[5][6] * Q[1][18]);
    o.d[7] = gas(6, 7, 14, al[7], 450, b, w); if (w) o.d[7] *= cc(z, std::log(b28 * M[6][1] * std::fabs(Q[0][2]) / b), M[6][5] * Q[0][1], M[6][4] * Q[0][0]) * cc(z, M[6][3] * Q[0][5], M[6][7] * Q[0][4], M[6][6] * Q[0][3]);
    R tho = M[7][9] * Q[0][6], lo = lb(7, 8), q, dd = U(z, lo, tho, tho, 16, al[8], s2, &q), zm = M[7][4], zs = M[7][5], sh = RGAS * tho / (gs / std::pow(1 + zm / re, 2) * 16); o.d[8] = dd * std::exp(-zs / sh * (std::exp(-(z - zm) / zs) - 1));
  }
  static constexpr R AL[9] = {-0.38L, 0, 0, 0, 0.17L, 0, -0.38L, 0, 0};
  R low(R alt, R d0, R xm, const R *tn2, const R *g2, const R *tn3, const R *g3, R *tz) const { static const R Z2[] = {72.5L, 55, 45, 32.5L}, Z3[] = {32.5L, 20, 15, 10, 0};
    auto part = [&](int n, const R *Z, const R *t, const R *g, R z, R &d) { R zd = zeta(Z[n - 1], Z[0]), xs[5], y[5]; for (int k = 0; k < n; k++) { xs[k] = zeta(Z[k], Z[0]) / zd; y[k] = 1 / t[k]; } Spl s = spl(n, xs, y, -g[0] / (t[0] * t[0]) * zd, -g[1] / (t[n - 1] * t[n - 1]) * zd * std::pow((re + Z[n - 1]) / (re + Z[0]), 2)); R x = zeta(z, Z[0]) / zd; *tz = 1 / val(s, x); R gam = xm * gs / std::pow(1 + Z[0] / re, 2) * zd / RGAS; d *= t[0] / *tz * std::exp(-cut(gam * integral(s, x))); };
    R d = d0; part(4, Z2, tn2, g2, std::max(alt, 32.5L), d); if (alt <= 32.5L) part(5, Z3, tn3, g3, alt, d); return d; }
  Out run(int mass = 48) {
    Out o{}; R z = in.alt; const double *sw = in.sw; int up = mass; if (z < 62.5L && mass > 0) up = 28; thermo(std::max(z, 72.5L), o, up);
    if (z < 72.5L) {
      Out q = o; R g2[2], t2[4], g3[2] = {0, 0}, t3[5] = {1, 1, 1, 1, 1}; g2[0] = gn1; t2[0] = tn1[4]; const auto *p = T.pma; const R *v = T.pavgm; double w = sw[19], w1 = sw[21];
      t2[1] = p[0][0] * v[0] / (1 - w * L(p[0])); t2[2] = p[1][0] * v[1] / (1 - w * L(p[1])); t2[3] = p[2][0] * v[2] / (1 - w * w1 * L(p[2])); g2[1] = v[8] * p[9][0] * (1 + w * w1 * L(p[9])) * t2[3] * t2[3] / std::pow(p[2][0] * v[2], 2);
      if (z <= 32.5L) { g3[0] = g2[1]; t3[0] = t2[3]; for (int k = 1; k < 5; k++) t3[k] = p[2 + k][0] * v[2 + k] / (1 - w1 * L(p[2 + k])); g3[1] = v[7] * p[7][0] * (1 + w1 * L(p[7])) * t3[4] * t3[4] / std::pow(p[6][0] * v[6], 2); }
      for (R &x : o.d) x = 0; R tz = 0; const R xmm = T.pdm[2][4]; bool deep = z <= 32.5L;
      if (deep) low(z, 1, 1, t2, g2, t3, g3, &tz); else low2(z, 1, 1, t2, g2, &tz);
      o.t[1] = tz; if (mass) { R c = z > 62.5L ? 1 - (72.5L - z) / 10 : 0, n2 = deep ? low(z, dm28, xmm, t2, g2, t3, g3, &tz) : low2(z, dm28, xmm, t2, g2, &tz); o.d[2] = n2 * (1 + (q.d[2] / dm28 - 1) * c); auto r = [&](int row, R up_) { return o.d[2] * T.pdm[row][1] * (1 + (up_ / (q.d[2] * T.pdm[row][1]) - 1) * c); }; o.d[0] = r(0, q.d[0]); o.d[3] = r(3, q.d[3]); o.d[4] = r(4, q.d[4]); }
    }
    o.rho = 1.66e-24L * (4 * o.d[0] + 16 * o.d[1] + 28 * o.d[2] + 32 * o.d[3] + 40 * o.d[4] + o.d[6] + 14 * o.d[7]); o.rhod = o.rho + 1.66e-24L * 16 * o.d[8]; return o;
  }
  R low2(R alt, R d0, R xm, const R *t2, const R *g2, R *tz) const { static const R Z2[] = {72.5L, 55, 45, 32.5L}; R zd = zeta(Z2[3], Z2[0]), xs[5], y[5]; for (int k = 0; k < 4; k++) { xs[k] = zeta(Z2[k], Z2[0]) / zd; y[k] = 1 / t2[k]; } Spl s = spl(4, xs, y, -g2[0] / (t2[0] * t2[0]) * zd, -g2[1] / (t2[3] * t2[3]) * zd * std::pow((re + Z2[3]) / (re + Z2[0]), 2)); R x = zeta(alt, Z2[0]) / zd; *tz = 1 / val(s, x); return d0 * (t2[0] / *tz) * std::exp(-cut(xm * gs / std::pow(1 + Z2[0] / re, 2) * zd / RGAS * integral(s, x))); }
};
} // namespace msis
