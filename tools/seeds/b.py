SEEDS = {}
GFC = r'''
#include "icgemio.hpp"
#include <cstring>
static void gfc(const char *fn, int deg, const char *endrec = "end_of_head ====\n") { FILE *f = fopen(fn, "w"); fprintf(f, "product_type gravity_field\nmodelname X\nearth_gravity_constant 3.986004415E+14\nradius 6.378E+06\nmax_degree %d\nerrors no\nnorm fully_normalized\n%s", deg, endrec);
  for (int i = 0; i <= deg; i++) for (int j = 0; j <= i; j++) fprintf(f, "gfc %d %d %.6e %.6e\n", i, j, 1e-3 * (10 * i + j + 1), j ? -1e-3 * (10 * i + j + 1) : 0e0); fclose(f); }
'''
SEEDS["G03-default-normalisation"] = dict(property="G03", needs="a header without the optional normalisation record",
  breaks="the default normalisation is lost: fully normalised coefficients are reported and loaded as unnormalised",
  edits=[("src/icgemio.hpp", '    char norm[64] = "fully_normalized";', '    char norm[64] = {\'\\0\'};')],
  src=["src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/harmonic_coeffs.cpp"], demo=GFC.replace("norm fully_normalized\\n", "") + """
int main() { gfc("x.gfc", 3); dso::Icgem g("x.gfc"); REQUIRE(g.parse_header() == 0 && g.degree() == 3 && g.is_normalized());
  dso::HarmonicCoeffs h(3); REQUIRE(g.parse_data(3, 3, &h) == 0 && h.normalized()); return 0; }""")
SEEDS["G04-order-limited-count"] = dict(property="G04", needs="loading a model up to an order below the degree",
  breaks="too few coefficients are awaited when the order is limited, so loading stops before the last ones and still reports success",
  edits=[("src/gravity/icgemio_rddata.cpp", "    sum += (i > m) ? (m + 1) : (i + 1);", "    sum += (i < m) ? (i + 1) : (m + (i == m));")],
  src=["src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/harmonic_coeffs.cpp"], demo=GFC + r'''
int main() { gfc("x.gfc", 5); dso::Icgem g("x.gfc"); REQUIRE(g.parse_header() == 0);
  for (int m = 0; m <= 5; m++) { dso::HarmonicCoeffs h(5); for (int i = 0; i <= 5; i++) for (int j = 0; j <= i; j++) h.C(i, j) = 77; REQUIRE(g.parse_data(5, m, &h) == 0);
    for (int i = 0; i <= 5; i++) for (int j = 0; j <= m && j <= i; j++) REQUIRE(h.C(i, j) > 0.0009 && h.C(i, j) < 1); } return 0; }''')
SEEDS["D01-starec-c-centre"] = dict(property="D01", needs="a station with a third-generation (type C) antenna",
  breaks="the iono-free phase centre of Starec C antennae is at the reference point",
  edits=[("src/doris_system_info.hpp", "                        AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *\n                            (type() == GroundAntennaType::Starec_B ||\n                             type() == GroundAntennaType::Starec_C);", "                        AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *\n                            (type() == GroundAntennaType::Starec_B);")],
  src=["src/doris/doris_system_info.cpp"], shim=True, demo=r'''
#include "doris_system_info.hpp"
#include <cstring>
int main() { dso::BeaconStation b, k; std::memcpy(b.m_station_id, "ADHB", 4); std::memcpy(k.m_station_id, "ADHC", 4);
  REQUIRE(k.iono_free_phase_center()(2) > 0.48 && (k.iono_free_phase_center() - b.iono_free_phase_center()).norm() == 0); return 0; }''')
SEEDS["D02-table-value"] = dict(property="D02", needs="a zenith angle between 50 and 60 degrees at a Starec C antenna",
  breaks="one tabulated phase value of one antenna type is off by 0.36 mm",
  edits=[("src/antenna_pcv.hpp", None, None)],
  shim=True, demo=r'''
#include "antenna_pcv.hpp"
#include <cmath>
int main() { int o; const double a = 55e0 * M_PI / 180; const double v = dso::AntennaOffset<dso::GroundAntennaType::Starec_C, 1>::pcv(a, o);
  REQUIRE(!o && std::fabs(v - 1.37) < 1e-9); return 0; }''')
SEEDS["B01-window-past-the-position"] = dict(property="B01", needs="a read that leaves a file position, then a read of a window that starts before it and ends after it",
  breaks="a saved file position inside the requested window is taken for the start of the file, and data that are in the file are reported missing",
  edits=[("src/var/celestrak_swdata.cpp", "  if (cmjd > start_mjd) {", "  if (cmjd > (fpos2 ? mjd : start_mjd)) {")],
  src=["src/var/celestrak_swdata.cpp"], shim=True, files=["harness/swgen.hpp"], demo=r'''
#include "swgen.hpp"
int main() { const long first = 58849; FILE *f = fopen("sw.csv", "w"); fprintf(f, "%s\n", sw::HEAD); for (int d = 0; d < 9; d++) fprintf(f, "%s\n", sw::join(sw::cols(first + d, d)).c_str()); fclose(f);
  using namespace dso::utils::celestrak::details; CelestTrakSWFlux q[4]; std::ifstream::pos_type pos = 0;
  REQUIRE(parse_csv_for_date(dso::modified_julian_day(first + 4), "sw.csv", q, pos, 1, 0) == 0);
  REQUIRE(parse_csv_for_date(dso::modified_julian_day(first + 6), "sw.csv", q, pos, 3, 0) == 0);
  for (int i = 0; i < 4; i++) REQUIRE(q[i].mjd_ == dso::modified_julian_day(first + 3 + i) && q[i].ApIndexes[2] == sw::ap(3 + i, 2)); return 0; }''')
SEEDS["V01-clear-toggles"] = dict(property="V01", needs="clearing an event that is not set",
  breaks="clearing an event that is not set sets it",
  edits=[("var/flags.cc", "    bits_ &= (~(1 << static_cast<uitype>(e)));", "    bits_ ^= (uitype(1) << static_cast<uitype>(e));")],
  demo=r'''
#include <initializer_list>
#define main flags_main
#include "var/flags.cc"
#undef main
int main() { Sp3Flag f; f.set(Sp3Event::maneuver); f.clear(Sp3Event::clock_event); REQUIRE(!f.is_set(Sp3Event::clock_event) && f.is_set(Sp3Event::maneuver)); f.clear(Sp3Event::maneuver); REQUIRE(f.is_clean()); return 0; }''')
SEEDS["V02-interior-node"] = dict(property="V02", needs="quadratic interpolation exactly at an interior node",
  breaks="at interior nodes the quadratic interpolator returns the last value and reports out of range",
  edits=[("var/intrp.cc", "      if (x >= base.x[i - 1] && x < base.x[i]) {\n        int idx = -1;", "      if (x > base.x[i - 1] && x < base.x[i]) {\n        int idx = -1;")],
  demo=r'''
#define main intrp_main
#include "var/intrp.cc"
#undef main
int main() { double x[] = {0, 1, 2, 3}, y[] = {1, 2, 5, 10}; QuadraticInterpolator q(x, y, 4); int s;
  REQUIRE(q.value_at(1e0, s) == 2 && s == 0 && q.value_at(2e0, s) == 5 && s == 0); return 0; }''')
SEEDS["I01-weights-signed"] = dict(property="I01", needs="solution components that are negative, with relative and absolute tolerances of similar size",
  breaks="the error weight of negative components vanishes or is far too small, so steps fail or the tolerance is taken as unreachable",
  edits=[("src/integrators/sgode_de.cpp", "    wt() = (releps * yy().cwiseAbs()).array() + abseps;", "    wt() = (releps * yy()).array() + abseps;")],
  src=["src/integrators/*.cpp"], shim=True, flags="-DNEW_EOP", demo="""
#include "integrators.hpp"
#include <cmath>
alignas(64) static unsigned char buf[sizeof(dso::IntegrationParameters)];
static void f(double, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> d, dso::IntegrationParameters &) noexcept { d(0) = y(1); d(1) = -y(0); }
int main() {
  dso::SGOde s(f, 2, 1e-9, 1e-9, reinterpret_cast<dso::IntegrationParameters *>(buf));
  Eigen::VectorXd y(2), o(2); y << -1, 0; double t = 0;
  REQUIRE(s.de(t, 3, y, o) == 0 && t == 3);
  REQUIRE(std::fabs(o(0) + std::cos(3e0)) < 1e-6);
  return 0;
}""")
SEEDS["R01-scale-second-carrier"] = dict(property="R01", needs="a scale factor that names an observable of the second carrier only",
  breaks="the factor is given to the first observable of the same kind, whatever its carrier",
  edits=[("src/rinex/read_rnx_header.cpp", "            [tmp](const ObservationCode &o) { return o == tmp; });", "            [tmp](const ObservationCode &o) { return o.type() == tmp.type(); });")],
  src=["src/rinex/*.cpp", "src/doris/*.cpp"], shim=True, files=["harness/rnxgen.hpp"], demo=r'''
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
using namespace rnx;
int main() {
  Header H; H.scales.push_back({10, {"L2"}, false, 0}); std::string t = H.text(); Block b; b.t = {2020, 1, 1, 1, 41, 3.0}; b.has_off = true; b.off = 0.25; b.flag = 0; b.cflag = 0; b.has_cflag = true;
  Beacon q; q.in = "D01"; for (int o = 0; o < 10; o++) q.v.push_back({Val::NUM, 20.0, ' ', ' '}); b.b.push_back(q);
  for (auto &l : lines(b)) t += l + "\n";
  FILE *f = fopen("x.rnx", "w"); fwrite(t.data(), 1, t.size(), f); fclose(f);
  dso::DorisObsRinex r("x.rnx"); dso::RinexDataBlockIterator it(&r); REQUIRE(it.next() == 0);
  REQUIRE(it.cblock[0].m_values[0].m_value == 20 && it.cblock[0].m_values[1].m_value == 2 && it.cblock[0].m_values[2].m_value == 20);
  return 0;
}''')
SEEDS["L01-sigma-of-all"] = dict(property="L01", needs="a filter without clock drift, at least two stations, and setting the offset sigma of all of them at once",
  breaks="from the second station on the offset sigma lands in the slot of a tropospheric delay or outside",
  edits=[("src/filters/filters.hpp", None, None)],
  shim=True, demo=r'''
#include "datetime/dtcalendar.hpp"
#include "filters/filters.hpp"
int main() { dso::EkfFilter<1, dso::BeaconClockModel::None> f(4, dso::datetime<dso::nanoseconds>::min());
  f.set_rfoff_apriori_sigma(7e0);
  for (int i = 0; i < 4; i++) { REQUIRE(f.P()(f.rfoff_index(i), f.rfoff_index(i)) == 7); REQUIRE(f.P()(f.tropo_index(i), f.tropo_index(i)) == 1); } return 0; }''')
_a = open("/repo/src/antenna_pcv.hpp").read(); _i = _a.index("AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {"); _j = _a.index("-0.08e0, 1.37e0,", _i)
SEEDS["D02-table-value"]["edits"] = [("src/antenna_pcv.hpp", _a[_i:_j + 16], _a[_i:_j] + "-0.08e0, 1.73e0,")]
_a = open("/repo/src/filters/filters.hpp").read(); _k = _a.index("struct EkfFilter<Np, BeaconClockModel::None>"); _i = _a.index("void set_rfoff_apriori_sigma(", _k); _j = _a.index("constexpr int step = 2;", _i)
SEEDS["L01-sigma-of-all"]["edits"] = [("src/filters/filters.hpp", _a[_i:_j + 23], _a[_i:_j] + "const int step = 1 + (_ekf.num_stations() > 3 ? 0 : 1);")]
