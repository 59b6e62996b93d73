#pragma once
// Stand-in for CSPICE: a kernel list with the documented kinds (binary PCK are
// "PCK", text kernels of any sort are "TEXT"), constants that exist once a text
// PCK is loaded, and body positions supplied by the harness.
#include <cstring>
#include <string>
#include <strings.h>
#include <vector>
typedef int SpiceInt; typedef double SpiceDouble; typedef char SpiceChar; typedef int SpiceBoolean; typedef const char ConstSpiceChar;
extern "C" { extern void (*shim_spkpos)(SpiceInt target, SpiceDouble et, SpiceDouble *pos); }
struct ShimKernel { std::string file, kind; };
inline std::vector<ShimKernel> shim_kernels; inline int shim_gm = 1; // gm: 1 always known, 0 only with a text PCK loaded
inline std::string shim_kind(const std::string &f) { auto e = [&](const char *s) { size_t n = strlen(s); return f.size() >= n && !f.compare(f.size() - n, n, s); }; return e(".bsp") ? "SPK" : e(".bpc") ? "PCK" : e(".bc") ? "CK" : e(".tm") ? "META" : "TEXT"; }
inline bool shim_match(ConstSpiceChar *kinds, const std::string &k) { std::string w; for (const char *p = kinds;; ++p) { if (*p && *p != ' ') { w += *p; continue; } if (!w.empty() && (!strcasecmp(w.c_str(), k.c_str()) || !strcasecmp(w.c_str(), "ALL"))) return true; w.clear(); if (!*p) return false; } }
inline void shim_put(SpiceChar *d, SpiceInt n, const std::string &s) { if (n > 0) { strncpy(d, s.c_str(), n - 1); d[n - 1] = 0; } }
inline void ktotal_c(ConstSpiceChar *kind, SpiceInt *n) { *n = 0; for (auto &k : shim_kernels) *n += shim_match(kind, k.kind); }
inline void kdata_c(SpiceInt which, ConstSpiceChar *kind, SpiceInt filen, SpiceInt tylen, SpiceInt srclen, SpiceChar *file, SpiceChar *type, SpiceChar *src, SpiceInt *handle, SpiceBoolean *found) { *found = 0; shim_put(file, filen, ""); shim_put(type, tylen, ""); shim_put(src, srclen, ""); *handle = 0; for (auto &k : shim_kernels) if (shim_match(kind, k.kind) && !which--) { shim_put(file, filen, k.file); shim_put(type, tylen, k.kind); *found = 1; *handle = k.kind == "TEXT" ? 0 : 1; return; } }
inline void kinfo_c(ConstSpiceChar *f, SpiceInt tylen, SpiceInt srclen, SpiceChar *type, SpiceChar *src, SpiceInt *handle, SpiceBoolean *found) { *found = 0; shim_put(type, tylen, ""); shim_put(src, srclen, ""); *handle = 0; for (auto &k : shim_kernels) if (k.file == f) { shim_put(type, tylen, k.kind); *found = 1; return; } }
inline void furnsh_c(ConstSpiceChar *f) { shim_kernels.push_back({f, shim_kind(f)}); }
inline bool shim_is(ConstSpiceChar *a, const char *b) { while (*a == ' ') ++a; size_t n = strlen(a); while (n && a[n - 1] == ' ') --n; return n == strlen(b) && !strncasecmp(a, b, n); }
inline void bodvrd_c(ConstSpiceChar *b, ConstSpiceChar *w, SpiceInt maxn, SpiceInt *n, SpiceDouble *v) { *n = 0; bool ok = shim_gm; for (auto &k : shim_kernels) if (k.file.size() > 4 && !k.file.compare(k.file.size() - 4, 4, ".tpc")) ok = true; if (!ok || maxn < 1) return; bool sun = shim_is(b, "SUN") || shim_is(b, "10"), moon = shim_is(b, "MOON") || shim_is(b, "301"), earth = shim_is(b, "EARTH") || shim_is(b, "399"); if (!sun && !moon && !earth) return; *n = 1; *v = shim_is(w, "GM") ? (sun ? 1.32712440041279419e11 : moon ? 4902.8001 : 398600.4354) : shim_is(w, "RADII") ? (sun ? 696000. : moon ? 1737.4 : 6378.14) : 0; }
inline void bodvcd_c(SpiceInt b, ConstSpiceChar *w, SpiceInt m, SpiceInt *n, SpiceDouble *v) { bodvrd_c(b == 10 ? "SUN" : b == 301 ? "MOON" : b == 399 ? "EARTH" : "", w, m, n, v); }
inline void str2et_c(ConstSpiceChar *, SpiceDouble *et) { *et = 0; }
// the seconds and day scales; the periodic part between TDT and TDB (2 ms) is left out
inline SpiceDouble unitim_c(SpiceDouble e, ConstSpiceChar *in, ConstSpiceChar *out) {
  auto jd = [](ConstSpiceChar *s) { return shim_is(s, "JDTDT") || shim_is(s, "JDTDB") || shim_is(s, "JED"); }; double t = jd(in) ? (e - 2451545e0) * 86400e0 : shim_is(in, "TAI") ? e + 32.184 : e; return jd(out) ? 2451545e0 + t / 86400e0 : shim_is(out, "TAI") ? t - 32.184 : t; }
// geometric position in J2000 from the geocentre as the harness gives it; other observers, frames and corrections as they would come out
inline void spkezp_c(SpiceInt t, SpiceDouble et, ConstSpiceChar *frame, ConstSpiceChar *corr, SpiceInt obs, SpiceDouble *p, SpiceDouble *lt) {
  auto geo = [](int b, double e, double *q) { q[0] = q[1] = q[2] = 0; if (b == 399) return; if (b == 3) { shim_spkpos(301, e, q); for (int i = 0; i < 3; i++) q[i] *= 0.012; return; } if (b == 0) { shim_spkpos(10, e, q); for (int i = 0; i < 3; i++) q[i] *= 0.995; return; } shim_spkpos(b, e, q); };
  auto from = [&](double e) { double q[3]; geo(t, e, p); geo(obs, et, q); for (int i = 0; i < 3; i++) p[i] -= q[i]; *lt = 0; for (int i = 0; i < 3; i++) *lt += p[i] * p[i]; };
  from(et); if (!shim_is(corr, "NONE")) { double l = 0; while (l * l < *lt) l += 1e3; from(et - l / 299792.458); }
  if (!shim_is(frame, "J2000")) { double q[3] = {p[0], p[1], p[2]}; const double c = 0.9174820620691818, s = 0.3977771559319137; p[1] = c * q[1] + s * q[2]; p[2] = -s * q[1] + c * q[2]; }
  *lt = 0; }
inline void spkgps_c(SpiceInt t, SpiceDouble et, ConstSpiceChar *frame, SpiceInt obs, SpiceDouble *p, SpiceDouble *lt) { spkezp_c(t, et, frame, "NONE", obs, p, lt); }
