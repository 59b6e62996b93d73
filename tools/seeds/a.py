SEEDS = {}
SEEDS["G01-moved-state"] = dict(property="G01", needs="a model that was denormalised and from which another is then move-constructed",
  breaks="the receiving model claims normalised coefficients although it holds denormalised ones; a later denormalize() scales them twice",
  edits=[("src/gravity/harmonic_coeffs.cpp", "  this->_Re = h._Re;\n  this->_cnormalized = h._cnormalized;\n  h.m_degree = 0;", "  this->_Re = h._Re;\n  h.m_degree = 0;")],
  src=["src/gravity/harmonic_coeffs.cpp"], demo=r'''
#include "harmonic_coeffs.hpp"
int main() {
  dso::HarmonicCoeffs a(3, 1e0, 2e0);
  for (int i = 0; i <= 3; i++) for (int j = 0; j <= i; j++) { a.C(i, j) = 1 + i + j; if (j) a.S(i, j) = 2 + i + j; }
  REQUIRE(a.denormalize() == 0 && !a.normalized());
  const double c = a.C(3, 2);
  dso::HarmonicCoeffs b(static_cast<dso::HarmonicCoeffs &&>(a));
  REQUIRE(!b.normalized());
  REQUIRE(b.denormalize() == 0 && b.C(3, 2) == c);
  return 0;
}''')
SEEDS["M01-tall-trapezoid"] = dict(property="M01", needs="a trapezoid matrix with more rows than columns, and an element below the square part",
  breaks="rows below the square part overlap the rows before them, so distinct elements share storage",
  edits=[("src/cmat2d.hpp", "    int offset = 0;\n    for (int i = 0; i < row; i++)\n      offset += pts_in_row(i);\n    return offset;",
          "    // closed form of the sum of pts_in_row(i) for i < row\n    const int full = (row < cols) ? row : cols;\n    return (full * (full + 1)) / 2 + (row - full) * (cols - (row > cols + 1));")],
  demo=r'''
#include "cmat2d.hpp"
int main() {
  for (int r = 1; r < 7; r++) for (int k = 1; k < 5; k++) {
    dso::Mat2D<dso::MatrixStorageType::Trapezoid> m(r, k); m.fill_with(0e0);
    for (int i = 0; i < r; i++) for (int j = 0; j < k && j <= i; j++) m(i, j) = 100 * i + j + 1;
    for (int i = 0; i < r; i++) for (int j = 0; j < k && j <= i; j++) REQUIRE(m(i, j) == 100 * i + j + 1);
  }
  return 0;
}''')
SEEDS["E01-moved-alias"] = dict(property="E01", needs="a table built by moving another, then used for both length-of-day and rotation rate",
  breaks="in a move-constructed table the rotation-rate column is the length-of-day column",
  edits=[("src/eop.hpp", "        dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {", "        dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda},\n        omegaa{eopt.mem_arena + 6 * eopt.capacity} {")],
  flags="-DNEW_EOP", shim=True, demo="""
#include "eop.hpp"
#include <utility>
int main() {
  dso::EopLookUpTable b(3); for (int i = 0; i < 3; i++) { *b.lod(i) = 1 + i; *b.omega(i) = 10 + i; }
  dso::EopLookUpTable a(std::move(b));
  for (int i = 0; i < 3; i++) REQUIRE(*a.lod(i) == 1 + i && *a.omega(i) == 10 + i);
  return 0;
}""")
SEEDS["L03-shrink-keeps-order"] = dict(property="L03", needs="assigning a polynomial of lower order to one of higher order",
  breaks="the receiver keeps its higher order and reads coefficients that are not there",
  edits=[("src/filters/models.hpp", "      if (new_order != _order) {", "      if (new_order > _order) {")],
  shim=True, demo="""
#include "filters/models.hpp"
int main() {
  dso::PolynomialModel<double> a(1), b(4);
  a.xref = 3; a.cf[0] = 1; a.cf[1] = 2; b.xref = -1; for (int i = 0; i < 5; i++) b.cf[i] = 9;
  b = a;
  REQUIRE(b.order() == 1);
  for (double x : {-2e0, 0e0, 3e0, 5e0}) REQUIRE(a.value_at(x) == b.value_at(x));
  return 0;
}""")
SEEDS["L02-process-noise-transposed"] = dict(property="L02", needs="a time update with process noise and a non-symmetric transition matrix",
  breaks="the covariance is propagated with the transposed transition matrix, so the filter is no longer the least-squares estimate",
  edits=[("src/filters/ekf.hpp", "    P = phi * P * phi.transpose() + Qdt;", "    P = Qdt + phi.transpose() * P * phi;")],
  shim=True, demo=r'''
#include "datetime/dtcalendar.hpp"
#include "filters/ekf.hpp"
#include <cmath>
int main() {
  dso::ExtendedKalmanFilter<dso::nanoseconds> f(2);
  Eigen::MatrixXd phi(2, 2), q(2, 2); phi << 1, 10, 0, 1; q << 0.5, 0, 0, 0.25;
  f.P << 4, 0, 0, 9;
  f.time_update(f.t, f.x, phi, q);
  const Eigen::MatrixXd P = f.P;
  REQUIRE(std::fabs(P(0, 0) - (4 + 900 + 0.5)) < 1e-9 && std::fabs(P(1, 1) - 9.25) < 1e-9 && std::fabs(P(0, 1) - 90) < 1e-9);
  return 0;
}''')
SEEDS["T01-end-included"] = dict(property="T01", needs="an epoch that is exactly the end of one record of a site and the start of its next",
  breaks="the record that just ended is returned together with the one that begins, with the old antenna height first",
  edits=[("src/beacon_tbl/beacon_tbl.cpp", "    if (t >= from && t < to) {", "    if (!(t < from) && !(to < t)) {")],
  src=["src/beacon_tbl/beacon_tbl.cpp"], shim=True, demo=r'''
#include "beacon_tbl.hpp"
int main() {
  FILE *f = fopen("beacons.txt", "w");
  fprintf(f, "site from                to               height\n");
  fprintf(f, "%-4s %s %s %9.6f\n", "ADHC", "2008-03-01 00:00:00", "2018-05-01 00:00:00", 0.5);
  fprintf(f, "%-4s %s %s %9.6f\n", "ADHC", "2018-05-01 00:00:00", "2021-05-01 00:00:00", 1.5);
  fclose(f);
  dso::BeaconInformationTable t("beacons.txt");
  using D = dso::datetime<dso::nanoseconds>;
  D e(dso::year(2018), dso::month(5), dso::day_of_month(1), dso::nanoseconds(0));
  auto v = t.load_to_memmory(e);
  REQUIRE(v.size() == 1 && v[0]._height == 1.5);
  return 0;
}''')
SEEDS["I02-budget-exhausted-stuck"] = dict(property="I02", needs="an integration that runs out of its step budget, followed by a call to continue it",
  breaks="the epoch the integration reached is not remembered, so the documented continuation is refused as improper input",
  edits=[("src/integrators/sgode_de.cpp", "      // -- break point 90: --\n      yout = yy();\n      t = x;\n      told = t;\n      isnold = 1;", "      // -- break point 90: --\n      yout = yy();\n      t = x;\n      isnold = 1;")],
  src=["src/integrators/*.cpp"], shim=True, flags="-DNEW_EOP", demo=r'''
#include "integrators.hpp"
#include <cmath>
alignas(64) static unsigned char buf[sizeof(dso::IntegrationParameters)];
static void f(double, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> d, dso::IntegrationParameters &) noexcept { d(0) = y(1); d(1) = -4 * y(0); }
int main() {
  dso::SGOde s(f, 2, 1e-11, 1e-11, reinterpret_cast<dso::IntegrationParameters *>(buf));
  Eigen::VectorXd y(2), o(2); y << 1, 0; double t = 0; int calls = 0, last = 0;
  while (t < 200 && calls < 40) { s.de(t, 200, y, o); last = s.flag(); y = o; ++calls; if (last == 6) break; }
  REQUIRE(last == 2 && t == 200 && calls > 1);
  REQUIRE(std::fabs(o(0) - std::cos(400e0)) < 1e-7);
  return 0;
}''')
SEEDS["R02-skip-full-last-line"] = dict(property="R02", needs="a file whose number of observables is a multiple of five, and skipping a block",
  breaks="skipping a block takes one line per beacon too many, so the next epoch is lost or misread",
  edits=[("src/doris_rinex.hpp", "  return 1 + (!(obs % 5) ? (obs / 5 - 1) : (obs / 5));", "  return 1 + obs / 5;")],
  src=["src/rinex/*.cpp", "src/doris/*.cpp"], shim=True, files=["harness/rnxgen.hpp"], demo=r'''
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
using namespace rnx;
int main() {
  for (int no : {4, 5, 6, 9, 10}) {
    Header H; H.codes.resize(no); std::string t = H.text();
    for (int i = 0; i < 3; i++) { Block b; b.t = {2020, 1, 1, 1, 40 + i, 3.0}; b.has_off = true; b.off = 0.5; b.flag = 0; b.cflag = 0; b.has_cflag = true;
      for (int k = 0; k < 2; k++) { Beacon q; q.in = k ? "D02" : "D01"; for (int o = 0; o < no; o++) q.v.push_back({Val::NUM, 10.0 * i + o + 1, ' ', ' '}); b.b.push_back(q); }
      for (auto &l : lines(b)) t += l + "\n"; }
    FILE *f = fopen("x.rnx", "w"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    dso::DorisObsRinex r("x.rnx"); char line[256]; dso::RinexDataRecordHeader h; std::vector<dso::BeaconObservations> v;
    REQUIRE(r.stream().getline(line, 256) && !r.resolve_data_epoch(line, h)); r.skip_data_block(h);
    REQUIRE(r.stream().getline(line, 256) && !r.resolve_data_epoch(line, h) && !r.read_data_block(h, v));
    REQUIRE(v.size() == 2 && v[1].m_values[0].m_value == 11.0);
  }
  return 0;
}''')
SEEDS["R03-l2-epoch-uncorrected"] = dict(property="R03", needs="the overload giving both carriers' epochs, an unapplied clock offset and a non-zero L2/L1 shift",
  breaks="the 400 MHz epoch misses the receiver clock correction that the 2 GHz epoch has",
  edits=[("src/rinex/rnx_datablock_iterator.cpp", "  // correct tl2\n  tl2 = t;\n", "  // correct tl2\n  tl2 = cheader.m_epoch;\n")],
  src=["src/rinex/*.cpp", "src/doris/*.cpp"], shim=True, files=["harness/rnxgen.hpp"], demo=r'''
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
using namespace rnx;
int main() {
  Header H; H.l21 = 2.015; std::string t = H.text(); Block b; b.t = {2020, 1, 1, 1, 41, 3.0}; b.has_off = true; b.off = 0.25; b.flag = 0; b.cflag = 0; b.has_cflag = true;
  for (auto &l : lines(b)) t += l + "\n";
  FILE *f = fopen("x.rnx", "w"); fwrite(t.data(), 1, t.size(), f); fclose(f);
  dso::DorisObsRinex r("x.rnx"); dso::RinexDataBlockIterator it(&r); REQUIRE(it.next() == 0);
  dso::datetime<dso::nanoseconds> t2; auto t1 = it.corrected_l1_epoch(t2);
  REQUIRE(t1 == it.corrected_l1_epoch());
  REQUIRE(t2.delta_sec(t1).as_underlying_type() == 2015);
  return 0;
}''')
SEEDS["E02-order-of-two"] = dict(property="E02", needs="interpolation in a table whose celestial-pole offsets dX and dY differ",
  breaks="interpolated dY is taken from the dX column",
  edits=[("src/iers/eop_interpolate.cpp", "  status += iers2010::interp::lagint(mjd(), dy(), sz, tt_fmjd, eopr.dy, index,\n                                     order);", "  status += iers2010::interp::lagint(mjd(), dx(), sz, tt_fmjd, eopr.dy, index,\n                                     order);")],
  src=["src/iers/*.cpp"], shim=True, flags="-DNEW_EOP", demo=r'''
#include "eop.hpp"
#include <cmath>
int main() {
  dso::EopLookUpTable t(10);
  for (int i = 0; i < 10; i++) { *t.mjd(i) = 50000 + i; *t.xp(i) = 0.1 + i; *t.yp(i) = 0.2 + i; *t.dut(i) = 0.3 + i; *t.lod(i) = 0.4 + i; *t.dx(i) = 0.5 + i; *t.dy(i) = 0.6 + i; *t.omega(i) = 0; }
  dso::EopRecord r; REQUIRE(t.interpolate_lagrange(50004.5, r, 3) == 0);
  REQUIRE(std::fabs(r.dx - 5.0) < 1e-6 && std::fabs(r.dy - 5.1) < 1e-6 && std::fabs(r.lod - 4.9) < 1e-6);
  return 0;
}''')
SEEDS["B02-night-of-four-days"] = dict(property="B02", needs="an update within the first hours of a day, after a jump of several days",
  breaks="the three-hour index before midnight comes from the wrong end of the previous day",
  edits=[("src/atmosphere/nrlmsise00_get_flux_data.cpp", "  // (4) 3 HR AP INDEX FOR 6 HRS BEFORE CURRENT TIME\n  --index;\n  if (index < 0) {\n    --cur;\n    index = 7;\n  }", "  // (4) 3 HR AP INDEX FOR 6 HRS BEFORE CURRENT TIME\n  index -= 1;\n  if (index < 0) {\n    index = 7;\n  }")],
  src=["src/var/celestrak_swdata.cpp", "src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/atmosphere/nrlmsise00_params.cpp"], shim=True, files=["harness/swgen.hpp"], demo=r'''
#include "atmosphere/nrlmsise00.hpp"
#include "swgen.hpp"
int main() {
  const long first = 58849; FILE *f = fopen("sw.csv", "w"); fprintf(f, "%s\n", sw::HEAD);
  for (int d = 0; d < 8; d++) fprintf(f, "%s\n", sw::join(sw::cols(first + d, d)).c_str()); fclose(f);
  dso::nrlmsise00::detail::InParamsCore in; in.year = 2020; in.doy = 5; in.sec = 4 * 3600.0; // day index 4, second interval
  dso::nrlmsise00::detail::Nrlmsise00DataFeed q("sw.csv", in);
  REQUIRE(in.aparr.a[1] == sw::ap(4, 1) && in.aparr.a[2] == sw::ap(4, 0) && in.aparr.a[3] == sw::ap(3, 7) && in.aparr.a[4] == sw::ap(3, 6));
  return 0;
}''')
SEEDS["W01-http-errors-stored"] = dict(property="W01", needs="a server answering with an error document that arrives completely",
  breaks="an HTTP error page is stored as if it were the requested product and success is returned",
  edits=[("src/web/http_get.cpp", "  curl_easy_setopt(curl_handle, CURLOPT_FAILONERROR, 1L);\n", "  curl_easy_setopt(curl_handle, CURLOPT_FAILONERROR, 0L);\n")],
  src=["src/web/http_get.cpp"], libs="", shim=False, files=[], demo=r'''
#include "cweb.hpp"
#include <cstring>
#include <curl/curl.h>
#include <cstdarg>
// a transport that answers 404 with a page
static long failon = 0; static FILE *out = nullptr; static size_t (*wr)(void *, size_t, size_t, void *) = nullptr; static int dummy;
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL *curl_easy_init(void) { failon = 0; return (CURL *)&dummy; }
void curl_easy_cleanup(CURL *) {}
#undef curl_easy_setopt
CURLcode curl_easy_setopt(CURL *, CURLoption o, ...) { va_list a; va_start(a, o); if (o == CURLOPT_FAILONERROR) failon = va_arg(a, long); if (o == CURLOPT_WRITEDATA) out = va_arg(a, FILE *); if (o == CURLOPT_WRITEFUNCTION) wr = va_arg(a, size_t (*)(void *, size_t, size_t, void *)); va_end(a); return CURLE_OK; }
CURLcode curl_easy_perform(CURL *) { if (failon) return CURLE_HTTP_RETURNED_ERROR; const char *p = "<html>404</html>"; wr((void *)p, 1, strlen(p), out); return CURLE_OK; }
}
int main() {
  REQUIRE(dso::http_get("http://x/y", "product.txt", true) != 0);
  REQUIRE(fopen("product.txt", "r") == nullptr);
  return 0;
}''')
SEEDS["I03-back-in-time"] = dict(property="I03", needs="an integration towards an earlier epoch that needs more than one step",
  breaks="step size looks positive after the first accepted step when integrating backwards, so the solver walks the wrong way",
  edits=[("var/ode_solvers/rkf45_rkfs.cpp", "    h = std::copysign(std::max(s * std::abs(h), hmin), h);", "    h = std::max(s * std::abs(h), hmin);")],
  src=["var/ode_solvers/rkf45*.cpp"], flags="-Ivar/ode_solvers -I/usr/include/eigen3", demo=r'''
#include "var/ode_solvers/rkf45.hpp"
#include <cmath>
static void f(double, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> d, void *) { d(0) = y(1); d(1) = -y(0); }
int main() {
  dso::RKF45 s(f, 2, 1e-10, 1e-10); Eigen::VectorXd y(2); y << 0, 1; double t = 0;
  s.solve(t, -6, y);
  REQUIRE(s.flag() == 2 && t == -6);
  REQUIRE(std::fabs(y(0) - std::sin(-6e0)) < 1e-6 && std::fabs(y(1) - std::cos(6e0)) < 1e-6);
  return 0;
}''')
SEEDS["G02-order-zero"] = dict(property="G02", needs="denormalisation limited to order zero (zonal coefficients only)",
  breaks="an explicit order of zero denormalises every order",
  edits=[("src/gravity/harmonic_coeffs.cpp", "  if (order < 0)\n    order = m_degree;", "  if (order <= 0)\n    order = m_degree;")],
  src=["src/gravity/harmonic_coeffs.cpp"], demo="""
#include "harmonic_coeffs.hpp"
#include <cmath>
int main() {
  dso::HarmonicCoeffs a(3); for (int i = 0; i <= 3; i++) for (int j = 0; j <= i; j++) { a.C(i, j) = 1; if (j) a.S(i, j) = 1; }
  REQUIRE(a.denormalize(0) == 0);
  for (int n = 1; n <= 3; n++) { REQUIRE(std::fabs(a.C(n, 0) - std::sqrt(2e0 * n + 1)) < 1e-12); REQUIRE(a.C(n, 1) == 1 && a.S(n, 1) == 1); }
  return 0;
}""")
