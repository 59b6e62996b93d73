// space-weather CSV files whose content is known
#pragma once
#include "var/celestrak.hpp"
#include <cstdio>
#include <string>
#include <vector>
namespace sw {
using Flux = dso::utils::celestrak::details::CelestTrakSWFlux;
inline const char *HEAD = "DATE,BSRN,ND,KP1,KP2,KP3,KP4,KP5,KP6,KP7,KP8,KP_SUM,AP1,AP2,AP3,AP4,AP5,AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81";
inline int ap(int day, int k) { return (day * 8 + k) * 7 % 401; }
inline double fl(int day, int k) { return 60 + day * 5.5 + k * 0.7 + (k == 5 ? 300 : 0); } // k: 0 obs, 1 adj, 2 obsC, 3 obsL, 4 adjC, 5 adjL
inline int apavg(int day) { return 3 + 2 * day; }
// the 31 columns of a record
inline std::vector<std::string> cols(long mjd, int day) {
  std::vector<std::string> v; char b[40];
  auto d = dso::datetime<dso::seconds>(dso::modified_julian_day(mjd), dso::seconds(0)).as_ymd();
  snprintf(b, sizeof b, "%04d-%02d-%02d", d.__year.as_underlying_type(), d.__month.as_underlying_type(), d.__dom.as_underlying_type()); v.push_back(b);
  auto I = [&](int x) { snprintf(b, sizeof b, "%d", x); v.push_back(b); };
  auto F = [&](double x) { snprintf(b, sizeof b, "%.1f", x); v.push_back(b); };
  I(2569); I(1 + day % 27); for (int k = 0; k < 8; k++) I(500 + day + k); I(777);
  for (int k = 0; k < 8; k++) I(ap(day, k)); I(apavg(day));
  F(0.3); I(1); I(95); F(fl(day, 0)); F(fl(day, 1)); v.push_back(day % 2 ? "OBS" : "PRD"); for (int k = 2; k < 6; k++) F(fl(day, k));
  return v;
}
inline std::string join(const std::vector<std::string> &v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += v[i]; } return s; }
} // namespace sw
