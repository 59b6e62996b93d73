// Stand-in for the datetime library doris links against (not installed here).
// Only what /repo uses; arithmetic is done in exact integers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>

namespace dso {
constexpr const double j2000_jd = 2451545e0;
constexpr const double mjd0_jd = 2400000.5e0;
constexpr const double j2000_mjd = 51544.5e0;
constexpr const double sec_per_day = 86400e0;

#define DSO_SHIM_INT(NAME, T)                                                  \
  class NAME {                                                                 \
    T v_{0};                                                                   \
  public:                                                                      \
    using underlying_type = T;                                                 \
    constexpr NAME() noexcept {}                                               \
    explicit constexpr NAME(T v) noexcept : v_(v) {}                           \
    constexpr T as_underlying_type() const noexcept { return v_; }             \
    constexpr T __member_ref__() const noexcept { return v_; }                 \
    constexpr bool operator==(NAME o) const noexcept { return v_ == o.v_; }    \
    constexpr bool operator!=(NAME o) const noexcept { return v_ != o.v_; }    \
    constexpr bool operator<(NAME o) const noexcept { return v_ < o.v_; }      \
    constexpr bool operator<=(NAME o) const noexcept { return v_ <= o.v_; }    \
    constexpr bool operator>(NAME o) const noexcept { return v_ > o.v_; }      \
    constexpr bool operator>=(NAME o) const noexcept { return v_ >= o.v_; }    \
  }
DSO_SHIM_INT(year, int);
DSO_SHIM_INT(month, int);
DSO_SHIM_INT(day_of_month, int);
DSO_SHIM_INT(day_of_year, int);
DSO_SHIM_INT(hours, int);
DSO_SHIM_INT(minutes, int);

class modified_julian_day {
  long v_{0};
public:
  using underlying_type = long;
  constexpr modified_julian_day() noexcept {}
  constexpr modified_julian_day(long v) noexcept : v_(v) {}
  constexpr modified_julian_day(year y, month m, day_of_month d) noexcept {
    long yy = y.as_underlying_type(), mm = m.as_underlying_type(), dd = d.as_underlying_type();
    long a = (14 - mm) / 12, Y = yy + 4800 - a, M = mm + 12 * a - 3;
    v_ = dd + (153 * M + 2) / 5 + 365 * Y + Y / 4 - Y / 100 + Y / 400 - 32045 - 2400001;
  }
  constexpr modified_julian_day(year y, day_of_year d) noexcept
      : v_(modified_julian_day(y, month(1), day_of_month(1)).v_ + d.as_underlying_type() - 1) {}
  constexpr long as_underlying_type() const noexcept { return v_; }
  constexpr double to_julian_day() const noexcept { return (double)v_ + mjd0_jd; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept { return modified_julian_day(v_ + o.v_); }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept { return modified_julian_day(v_ - o.v_); }
  modified_julian_day &operator+=(modified_julian_day o) noexcept { v_ += o.v_; return *this; }
  modified_julian_day &operator-=(modified_julian_day o) noexcept { v_ -= o.v_; return *this; }
  modified_julian_day &operator++() noexcept { ++v_; return *this; }
  modified_julian_day &operator--() noexcept { --v_; return *this; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(modified_julian_day o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(modified_julian_day o) const noexcept { return v_ >= o.v_; }
};

template <long F> class sec_type {
  long v_{0};
public:
  using underlying_type = long;
  static constexpr bool is_of_sec_type{true};
  static constexpr long max_in_day{86400L * F};
  template <class T> static constexpr T sec_factor() noexcept { return (T)F; }
  constexpr sec_type() noexcept {}
  explicit constexpr sec_type(long v) noexcept : v_(v) {}
  constexpr sec_type(hours h, minutes m, sec_type s = sec_type()) noexcept
      : v_((h.as_underlying_type() * 3600L + m.as_underlying_type() * 60L) * F + s.v_) {}
  constexpr long as_underlying_type() const noexcept { return v_; }
  constexpr double to_fractional_seconds() const noexcept { return (double)v_ / (double)F; }
  constexpr double fractional_days() const noexcept { return (double)v_ / (double)max_in_day; }
  constexpr sec_type operator+(sec_type o) const noexcept { return sec_type(v_ + o.v_); }
  constexpr sec_type operator-(sec_type o) const noexcept { return sec_type(v_ - o.v_); }
  sec_type &operator+=(sec_type o) noexcept { v_ += o.v_; return *this; }
  sec_type &operator-=(sec_type o) noexcept { v_ -= o.v_; return *this; }
  constexpr bool operator==(sec_type o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(sec_type o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(sec_type o) const noexcept { return v_ < o.v_; }
  constexpr bool operator<=(sec_type o) const noexcept { return v_ <= o.v_; }
  constexpr bool operator>(sec_type o) const noexcept { return v_ > o.v_; }
  constexpr bool operator>=(sec_type o) const noexcept { return v_ >= o.v_; }
};
using seconds = sec_type<1L>;
using milliseconds = sec_type<1000L>;
using microseconds = sec_type<1000000L>;
using nanoseconds = sec_type<1000000000L>;

struct ydoy_date { year __year; day_of_year __doy; };
struct ymd_date { year __year; month __month; day_of_month __dom; };

template <class S> class datetime {
  modified_julian_day mjd_;
  S sec_;
  static long sat(__int128 v) noexcept {
    const __int128 M = std::numeric_limits<long>::max();
    return v > M ? (long)M : v < -M ? -(long)M : (long)v;
  }
  __int128 total() const noexcept { return (__int128)mjd_.as_underlying_type() * S::max_in_day + sec_.as_underlying_type(); }
public:
  using sec_type = S;
  datetime() noexcept : mjd_(51544L), sec_(0L) {}
  datetime(modified_julian_day m, S s = S(0L)) noexcept : mjd_(m), sec_(s) { normalize(); }
  datetime(year y, month m, day_of_month d, S s = S(0L)) noexcept : mjd_(y, m, d), sec_(s) { normalize(); }
  datetime(year y, day_of_year d, S s = S(0L)) noexcept : mjd_(y, d), sec_(s) { normalize(); }
  static datetime min() noexcept { return datetime(modified_julian_day(-678577L), S(0L)); }
  static datetime max() noexcept { return datetime(modified_julian_day(2973483L), S(0L)); }
  static datetime now() noexcept { return datetime(); }
  modified_julian_day mjd() const noexcept { return mjd_; }
  S sec() const noexcept { return sec_; }
  void normalize() noexcept {
    long v = sec_.as_underlying_type(), q = v / S::max_in_day, r = v % S::max_in_day;
    if (r < 0) { r += S::max_in_day; --q; }
    mjd_ += modified_julian_day(q); sec_ = S(r);
  }
  template <class T> void add_seconds(T s) noexcept {
    const __int128 f = (__int128)S::template sec_factor<long>();
    const long g = T::template sec_factor<long>();
    __int128 v = (__int128)s.as_underlying_type() * f / g + sec_.as_underlying_type();
    __int128 q = v / S::max_in_day, r = v % S::max_in_day;
    if (r < 0) { r += S::max_in_day; --q; }
    mjd_ += modified_julian_day((long)q); sec_ = S((long)r);
  }
  double as_mjd() const noexcept { return (double)mjd_.as_underlying_type() + sec_.fractional_days(); }
  double as_jd() const noexcept { return as_mjd() + mjd0_jd; }
  double fractional_days() const noexcept { return sec_.fractional_days(); }
  double jcenturies_sinceJ2000() const noexcept { return ((double)mjd_.as_underlying_type() - j2000_mjd + sec_.fractional_days()) / 36525e0; }
  S delta_sec(const datetime &o) const noexcept { return S(sat(total() - o.total())); }
  datetime delta_date(const datetime &o) const noexcept {
    datetime d; d.mjd_ = mjd_ - o.mjd_; d.sec_ = sec_ - o.sec_; d.normalize(); return d;
  }
  template <class T> datetime<T> cast_to() const noexcept {
    const __int128 v = (__int128)sec_.as_underlying_type() * T::template sec_factor<long>() / S::template sec_factor<long>();
    return datetime<T>(mjd_, T((long)v));
  }
  ymd_date as_ymd() const noexcept {
    long a = mjd_.as_underlying_type() + 2400001 + 32044, b = (4 * a + 3) / 146097, c = a - 146097 * b / 4,
         d = (4 * c + 3) / 1461, e = c - 1461 * d / 4, m = (5 * e + 2) / 153;
    return {year((int)(100 * b + d - 4800 + m / 10)), month((int)(m + 3 - 12 * (m / 10))), day_of_month((int)(e - (153 * m + 2) / 5 + 1))};
  }
  ydoy_date as_ydoy() const noexcept {
    year y = as_ymd().__year;
    return {y, day_of_year((int)(mjd_ - modified_julian_day(y, day_of_year(1))).as_underlying_type() + 1)};
  }
  bool operator==(const datetime &o) const noexcept { return mjd_ == o.mjd_ && sec_ == o.sec_; }
  bool operator!=(const datetime &o) const noexcept { return !(*this == o); }
  bool operator<(const datetime &o) const noexcept { return mjd_ < o.mjd_ || (mjd_ == o.mjd_ && sec_ < o.sec_); }
  bool operator<=(const datetime &o) const noexcept { return !(o < *this); }
  bool operator>(const datetime &o) const noexcept { return o < *this; }
  bool operator>=(const datetime &o) const noexcept { return !(*this < o); }
};

enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds };
template <DateTimeDifferenceType D, class S> double date_diff(const datetime<S> &a, const datetime<S> &b) noexcept {
  const double days = (double)(a.mjd() - b.mjd()).as_underlying_type();
  const S ds = a.sec() - b.sec();
  return D == DateTimeDifferenceType::FractionalSeconds ? days * 86400e0 + ds.to_fractional_seconds() : days + ds.fractional_days();
}

inline modified_julian_day ydoy2mjd(int y, int doy) noexcept { return modified_julian_day(year(y), day_of_year(doy)); }
inline modified_julian_day ydoy2mjd(year y, day_of_year doy) noexcept { return modified_julian_day(y, doy); }

namespace shim {
// six numbers separated by one arbitrary character each (blanks may precede a
// number); throws like the real one; leaves errno alone
inline const char *ymdhms(const char *s, int *v, double &sec) {
  auto num = [&](bool frac, double &d) {
    while (*s == ' ') ++s;
    if (*s == '+') ++s;
    if (*s < '0' || *s > '9') throw std::invalid_argument("bad date");
    d = 0;
    while (*s >= '0' && *s <= '9') d = d * 10 + (*s++ - '0');
    if (frac && *s == '.') {
      ++s; double num = 0, den = 1;
      while (*s >= '0' && *s <= '9') { if (den < 1e15) { num = num * 10 + (*s - '0'); den *= 10; } ++s; }
      d += num / den;
    }
  };
  for (int i = 0; i < 5; i++) {
    double d; num(false, d); if (d > 1e6) throw std::invalid_argument("bad date");
    v[i] = (int)d;
    if (!*s) throw std::invalid_argument("bad date");
    ++s;
  }
  num(true, sec);
  static const int dom[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (v[0] % 4 == 0 && v[0] % 100) || v[0] % 400 == 0;
  if (v[1] < 1 || v[1] > 12 || v[2] < 1 || v[2] > dom[v[1] - 1] + (leap && v[1] == 2) || v[3] > 24 || v[4] > 59 || sec >= 61)
    throw std::invalid_argument("bad date");
  return s;
}
} // namespace shim
template <class S> datetime<S> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  int v[5]; double sec;
  const char *e = shim::ymdhms(str, v, sec);
  if (stop) *stop = (char *)e;
  long f = S::template sec_factor<long>();
  return datetime<S>(year(v[0]), month(v[1]), day_of_month(v[2]), S((v[3] * 3600L + v[4] * 60L) * f + (long)std::llround(sec * (double)f)));
}
inline double utc_strptime_ymd_hms(const char *str, modified_julian_day &mjd, char **stop = nullptr) {
  int v[5]; double sec;
  const char *e = shim::ymdhms(str, v, sec);
  if (stop) *stop = (char *)e;
  mjd = modified_julian_day(year(v[0]), month(v[1]), day_of_month(v[2]));
  return (v[3] * 3600e0 + v[4] * 60e0 + sec) / 86400e0;
}
template <class S> std::string strftime_ymd_hms(const datetime<S> &t) {
  auto d = t.as_ymd(); long s = t.sec().as_underlying_type() / S::template sec_factor<long>();
  char b[64]; std::snprintf(b, sizeof b, "%04d/%02d/%02d %02ld:%02ld:%012.9f", d.__year.as_underlying_type(), d.__month.as_underlying_type(),
                            d.__dom.as_underlying_type(), s / 3600, s / 60 % 60, t.sec().to_fractional_seconds() - (double)(s / 60 * 60));
  return b;
}

// leap seconds: TAI-UTC
inline int dat(modified_julian_day m, int &extra) noexcept {
  static const long t[] = {41317, 41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239, 44786, 45151, 45516, 46247,
                           47161, 47892, 48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754};
  int n = 9; extra = 0;
  for (long x : t) { if (m.as_underlying_type() >= x) ++n; if (m.as_underlying_type() + 1 == x) extra = 1; }
  return n;
}
inline int dat(modified_julian_day m) noexcept { int e; return dat(m, e); }
inline double utc2tai(modified_julian_day utc, double fday, modified_julian_day &tai) noexcept {
  double f = fday + dat(utc) / 86400e0;
  double i = std::floor(f);
  tai = modified_julian_day(utc.as_underlying_type() + (long)i);
  return f - i;
}
template <class S> double tai2utc(const datetime<S> &t, modified_julian_day &utc) noexcept {
  int d = dat(t.mjd());
  double f = t.fractional_days() - d / 86400e0;
  utc = t.mjd();
  if (f < 0) { utc -= modified_julian_day(1); d = dat(utc); f = t.fractional_days() - d / 86400e0 + 1; }
  return f;
}
} // namespace dso
namespace dso { inline int dat(double mjd, int &extra) noexcept { return dat(modified_julian_day((long)std::floor(mjd)), extra); } }
