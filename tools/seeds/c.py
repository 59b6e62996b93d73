SEEDS = {}
RNX = r'''
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
using namespace rnx;
static void put(const char *fn, const std::string &t) { FILE *f = fopen(fn, "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
'''
RSRC = ["src/rinex/*.cpp", "src/doris/*.cpp"]
SEEDS["R04-next-file-reference"] = dict(property="R04", needs="more than one RINEX file in the list",
  breaks="the reference epoch moves to that of the last file while the points of the earlier files count from the first one's",
  edits=[("src/rinex/fit_rfo.cpp", "  if (tref == Datetime::min())\n    tref = rnx.ref_datetime();", "  if (tref <= rnx.ref_datetime())\n    tref = rnx.ref_datetime();")],
  src=RSRC, shim=True, files=["harness/rnxgen.hpp"], demo=RNX + r'''
#include <cmath>
int main() {
  const char *fn[] = {"a.rnx", "b.rnx"};
  for (int q = 0; q < 2; q++) { Header H; H.codes = {"F"}; H.refdate = {2020, 1, 1, q * 6, 0, 0.0}; std::string t = H.text();
    for (int i = 0; i < 6; i++) { Block b; b.t = {2020, 1, 1, q * 6 + i, 10, 0.0}; b.has_off = false; b.flag = 0; b.cflag = 0; b.has_cflag = true; Beacon k; k.in = "D01"; k.v.push_back({Val::NUM, 10.0 + 0.5 * (q * 6 + i), ' ', ' '}); b.b.push_back(k); for (auto &l : lines(b)) t += l + "\n"; }
    put(fn[q], t); }
  typedef dso::datetime<dso::nanoseconds> DT; dso::PolynomialModel<DT> fit(1);
  REQUIRE(dso::fit_relative_frequency_offset({fn[0], fn[1]}, fit, true, 1, DT::min(), DT::max()) == 0);
  DT at(dso::modified_julian_day(58849), dso::nanoseconds((3600L * 9 + 600) * 1000000000L)); REQUIRE(std::fabs(fit.value_at(at) - 14.5) < 1e-6); return 0; }''')
SEEDS["R05-block-after-error-flag"] = dict(property="R05", needs="a beacon that is absent from a block and comes back later",
  breaks="a beacon is compared with its values at the block before instead of its own last ones: the epoch of every known beacon is renewed by every block",
  edits=[("src/doris/extract_doppler_count.cpp", "      it->obs = newobs;\n      it->t = t;\n    }\n", "      it->obs = newobs;\n    }\n    for (auto &bod : data)\n      bod.t = t;\n")],
  src=RSRC, shim=True, files=["harness/rnxgen.hpp"], demo=RNX + r'''
#include <cstring>
#include <unistd.h>
int main() { Header H; H.codes = {"L1", "L2"}; std::string t = H.text();
  for (int i = 0; i < 3; i++) { Block b; b.t = {2020, 1, 1, 1, 0, 10.0 * i}; b.has_off = false; b.flag = 0; b.cflag = 0; b.has_cflag = true;
    for (int k = 0; k < 2; k++) { if (i == 1 && k == 1) continue; Beacon B; B.in = k ? "D02" : "D01"; B.v = {{Val::NUM, 100.0 + i, ' ', ' '}, {Val::NUM, 50.0 - i, ' ', ' '}}; b.b.push_back(B); }
    for (auto &l : lines(b)) t += l + "\n"; }
  put("x.rnx", t); dso::DorisObsRinex r("x.rnx"); int keep = dup(1); REQUIRE(freopen("out.txt", "w", stdout)); int rc = r.get_doppler_counts(); fflush(stdout); dup2(keep, 1); REQUIRE(rc == 0);
  FILE *f = fopen("out.txt", "r"); char l[200]; bool seen = false; while (fgets(l, 200, f)) if (!strncmp(l, "D02", 3)) { char id[9]; double m, a, b, d; REQUIRE(sscanf(l, "%3s %lf %lf %lf %lf", id, &m, &a, &b, &d) == 5); REQUIRE(a == 2 && b == -2 && d == 20); seen = true; }
  REQUIRE(seen); return 0; }''')
SEEDS["S01-comment-run"] = dict(property="S01", needs="two comment lines in a row within the records",
  breaks="only one comment line in a row is skipped while the buffer is filled, so a file with two of them is refused",
  edits=[("src/satellites/jason3_quaternions.cpp", "    while (line[0] == '#' && fin.good())\n      fin.getline(line, LINE_SZ);\n    \n    if", "    if (line[0] == '#' && fin.good())\n      fin.getline(line, LINE_SZ);\n    \n    if")],
  src=["src/satellites/*.cpp"], shim=True, demo=r'''
#include "satellites/jason3_quaternions.hpp"
int main() { FILE *f = fopen("q.txt", "w"); fprintf(f, "# a\n"); for (int i = 0; i < 9; i++) fprintf(f, "2020/03/01 00:%02d:00.000\t1234567890\t1.0\t0001\t1234567891\t0.0\t0002\t1234567892\t0.0\t0003\t1234567893\t0.0\t\n%s", i, i == 1 ? "# b\n# c\n" : ""); fclose(f);
  try { dso::JasonQuaternionHunter h("q.txt"); Eigen::Quaterniond q; REQUIRE(h.get_at(58909 + (60 * 6.5 + 37) / 86400, q) == 0); } catch (std::exception &) { REQUIRE(false); } return 0; }''')
SEEDS["S01-shortest-way"] = dict(property="S01", needs="successive quaternions given with opposite signs",
  breaks="the interpolation goes the long way round when the sign of the quaternion flips between two records",
  edits=[("src/satellites/jason3_quaternions.cpp", "  q = bodyq[i0].quaternion.slerp(dt, bodyq[i1].quaternion);\n", "  q.coeffs() = (1e0 - dt) * bodyq[i0].quaternion.coeffs() +\n               dt * bodyq[i1].quaternion.coeffs();\n  if (bodyq[i0].quaternion.dot(bodyq[i1].quaternion) > 0e0)\n    q = bodyq[i0].quaternion.slerp(dt, bodyq[i1].quaternion);\n")],
  src=["src/satellites/*.cpp"], shim=True, demo=r'''
#include "satellites/jason3_quaternions.hpp"
#include <cmath>
int main() { FILE *f = fopen("q.txt", "w"); for (int i = 0; i < 9; i++) { double s = i % 2 ? -1 : 1; fprintf(f, "2020/03/01 00:%02d:00.000\t1234567890\t%.12f\t0001\t1234567891\t%.12f\t0002\t1234567892\t0.0\t0003\t1234567893\t0.0\t\n", i, s * std::cos(0.05 * i), s * std::sin(0.05 * i)); } fclose(f);
  dso::JasonQuaternionHunter h("q.txt"); Eigen::Quaterniond q; REQUIRE(h.get_at(58909 + (60 * 2.5 + 37) / 86400, q) == 0); REQUIRE(std::fabs(std::fabs(q.w()) - std::cos(0.125)) < 1e-6 && std::fabs(std::fabs(q.x()) - std::sin(0.125)) < 1e-6); return 0; }''')
SEEDS["S02-whole-seconds"] = dict(property="S02", needs="an epoch within the same second as a record, after it",
  breaks="the time of day is truncated to whole seconds before it is compared with the records",
  edits=[("src/satellites/satellite_corrections.cpp", "  const double sec = t.sec().to_fractional_seconds();", "  const double sec = static_cast<long>(t.sec().to_fractional_seconds());")],
  src=["src/satellites/*.cpp"], shim=True, demo=r'''
#include "satellites.hpp"
int main() { FILE *f = fopen("m.txt", "w"); fprintf(f, "C comment\n2458849.5 0.0 -1.0 0.001 0.002 0.003\n2458849.5 50000.25 -2.0 0.004 0.005 0.006\n2458850.5 0.0 -3.0 0.007 0.008 0.009\n"); fclose(f);
  double d[4]; REQUIRE(dso::get_satellite_corrections("m.txt", dso::datetime<dso::nanoseconds>(dso::modified_julian_day(58849), dso::nanoseconds(50000500000000L)), d) == 0); REQUIRE(d[0] == -2.0 && d[3] == 0.006); return 0; }''')
SEEDS["N01-epoch-of-x"] = dict(property="N01", needs="an epoch reading before the reference epoch of the solution, at a fraction of a day",
  breaks="coordinates before the reference epoch of the solution are not moved along the velocity",
  edits=[("src/ids/get_pdop_crd.cpp", "    double dt = (mjd_at - mjd_ref) / 365.25e0;\n", "    double dt = (mjd_at > mjd_ref ? mjd_at - mjd_ref : 0e0) / 365.25e0;\n")],
  src=["src/ids/get_pdop_crd.cpp", "src/doris/doris_system_info.cpp"], shim=True, demo=r'''
#include "doris_system_info.hpp"
#include "doris_utils.hpp"
#include "sinex/sinex.hpp"
#include <cmath>
using namespace dso::sinex;
int main() { auto &f = shim_file(); f = ShimFile(); SiteId id; snprintf(id.m_site_code, 5, "DIOA"); snprintf(id.m_point_code, 3, " A"); f.sites.push_back(id); const char *C[] = {"STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ"};
  for (int k = 0; k < 6; k++) { SolutionEstimate e; snprintf(e.m_param_type, 7, "%-6s", C[k]); snprintf(e.m_site_code, 5, "DIOA"); snprintf(e.m_point_code, 3, " A"); snprintf(e.m_soln_id, 5, "   1"); snprintf(e.m_units, 5, "%-4s", k < 3 ? "m" : "m/y"); e.m_epoch = dso::datetime<dso::microseconds>(dso::modified_julian_day(58849), dso::microseconds(0)); e.m_estimate = k < 3 ? 1e6 * (k + 1) : 1.0; f.est.push_back(e); }
  dso::BeaconCoordinates r[1]; int n = 0; char s[] = "DIOA"; char *st[] = {s}; REQUIRE(dso::extrapolate_sinex_coordinates("x", st, 1, dso::datetime<dso::microseconds>(dso::modified_julian_day(58849 - 1461), dso::microseconds(0)), r, n, true) == 0 && n == 1);
  REQUIRE(std::fabs(r[0].x - (1e6 - 4)) < 1e-6); return 0; }''')
SEEDS["K01-retrograde-inclination"] = dict(property="K01", needs="a retrograde orbit",
  breaks="the inclination of retrograde orbits is folded below 90 degrees in one of the conversions from state to elements",
  edits=[("src/astrodynamics/state2kepler.cpp", "  ele.inclination() =\n      std::atan2(std::sqrt(h.x() * h.x() + h.y() * h.y()), h.z());\n", "  ele.inclination() = std::asin(\n      std::min(1e0, std::sqrt(h.x() * h.x() + h.y() * h.y()) / hmag));\n")],
  src=["src/astrodynamics/*.cpp"], shim=True, demo=r'''
#include "astrodynamics.hpp"
#include <cmath>
int main() { for (int i = 0; i < 2; i++) { dso::OrbitalElements e0; e0.semimajor() = 7.7e6; e0.eccentricity() = 0.01; e0.inclination() = i ? 2.0 : 1.0; e0.Omega() = 1; e0.omega() = 2; e0.mean_anomaly() = 3; dso::Vector3 r, v; const double GM = 3.986004418e14; REQUIRE(dso::elements2state(e0, 0, r, v, GM) == 0);
  dso::OrbitalElements e; REQUIRE(dso::state2elements(r, v, e, GM) == 0); REQUIRE(std::fabs(e.inclination() - e0.inclination()) < 1e-9 && std::fabs(e.Omega() - 1) < 1e-9); } return 0; }''')
SEEDS["K02-high-eccentricity-start"] = dict(property="K02", needs="an eccentricity above 0.8 with a small mean anomaly",
  breaks="the iteration starts from the mean anomaly for every eccentricity, so it fails to converge for some highly eccentric orbits",
  edits=[("src/astrodynamics/kepler.cpp", "  const bool elt08 = (e < 8e-1);", "  const bool elt08 = (e < 9.8e-1);")],
  src=["src/astrodynamics/*.cpp"], shim=True, demo=r'''
#include "astrodynamics.hpp"
#include <cmath>
int main() { for (int a = 0; a < 200; a++) for (int k = 1; k < 2000; k++) { const double e = 0.8 + 0.0009 * a, M = k * 6.283 / 2000; int st = 0; const double E = dso::kepler(e, M, st); REQUIRE(st == 0 && std::fabs(E - e * std::sin(E) - M) < 1e-10); } return 0; }''')
SEEDS["K03-backward-partials"] = dict(property="K03", needs="propagation backwards in time",
  breaks="the partial of the mean anomaly with respect to the semi-major axis has the sign of forward propagation for every time step",
  edits=[("src/astrodynamics/state_partials.cpp", "  const double dMda = -1.5e0 * (n / a) * dt;", "  const double dMda = -1.5e0 * (n / a) * std::abs(dt);")],
  src=["src/astrodynamics/*.cpp"], shim=True, demo=r'''
#include "astrodynamics.hpp"
#include <cmath>
int main() { const double GM = 3.986004418e14; Eigen::Matrix<double, 6, 1> y; y << 7e6, 1e6, 5e5, -1e3, 5e3, 5e3; 
  for (double dt : {600.0, -600.0}) { Eigen::Matrix<double, 6, 6> P, Q; dso::propagate_state(GM, y, dt, P); for (int k = 0; k < 6; k++) { const double h = k < 3 ? 10 : 0.01; auto a = y, b = y; a(k) += h; b(k) -= h; Eigen::Matrix<double, 6, 1> d = (dso::propagate_state(GM, a, dt, Q) - dso::propagate_state(GM, b, dt, Q)) / (2 * h); for (int i = 0; i < 6; i++) REQUIRE(std::fabs(d(i) - P(i, k)) < 1e-3 * P.row(i).cwiseAbs().maxCoeff()); } } return 0; }''')
G5SRC = ["src/gravity/*.cpp"]
SEEDS["G05-order-one-recursion"] = dict(property="G05", needs="tesseral coefficients of order one and degree above one in the partials",
  breaks="the factor of the order-one terms of the gravity gradient is carried with the ratio of the order-zero terms",
  edits=[("src/gravity/gravity_acceleration.cpp", "    fac *= ((double)(i + 2) / (double)i);", "    fac *= ((double)(i + 3) / (double)(i + 1));")],
  src=G5SRC, shim=True, demo=r'''
#include "egravity.hpp"
#include <cmath>
static Eigen::Vector3d acc(const Eigen::Vector3d &r, dso::HarmonicCoeffs &h, Eigen::Matrix3d &p) { dso::Mat2D<dso::MatrixStorageType::Trapezoid> V(7, 7), W(7, 7); return dso::grav_potential_accel(r, 3, 3, V, W, h, p); }
int main() { dso::HarmonicCoeffs h(3); for (int i = 0; i <= 3; i++) for (int j = 0; j <= i; j++) { h.C(i, j) = 0; if (j) h.S(i, j) = 0; } h.C(0, 0) = 1; h.C(3, 1) = 1e-2; h.S(2, 1) = 2e-2; h.GM() = 3.986e14; h.Re() = 6.378e6;
  Eigen::Vector3d r(4e6, 3e6, 5e6); Eigen::Matrix3d p, q; acc(r, h, p); for (int k = 0; k < 3; k++) { Eigen::Vector3d d = Eigen::Vector3d::Unit(k) * 10; Eigen::Vector3d g = (acc(r + d, h, q) - acc(r - d, h, q)) / 20; for (int i = 0; i < 3; i++) REQUIRE(std::fabs(g(i) - p(i, k)) < 1e-6 * p.norm()); } return 0; }''')
SEEDS["G06-indirect-term"] = dict(property="G06", needs="the overload without partials, used for the Sun",
  breaks="the attraction of the Earth itself is taken at the distance of the satellite from the body: the tidal part is wrong by a relative amount of order satellite radius over body distance",
  edits=[("src/gravity/point_mass_acceleration.cpp", "  return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));\n}\n\nEigen", "  return (-GM) * (d / (dn*dn2) + robj / (dn*sn2));\n}\n\nEigen")],
  src=["src/gravity/point_mass_acceleration.cpp"], shim=True, demo=r'''
#include "egravity.hpp"
#include <cmath>
int main() { Eigen::Vector3d r(7e3, 1e3, 2e3), s(1.4e8, 3e7, 1e7); const double GM = 1.327e11; Eigen::Vector3d a = dso::point_mass_accel(GM, r, s); Eigen::Matrix3d p; Eigen::Vector3d b = dso::point_mass_accel(GM, r, s, p); REQUIRE((a - b).norm() < 1e-9 * b.norm());
  return 0; }''')
SEEDS["P01-long-path"] = dict(property="P01", needs="an ephemeris kernel whose path is longer than 31 characters, asked for twice",
  breaks="only the first 31 characters of the loaded name are fetched, so the kernel is loaded again on every request",
  edits=[("src/planets/cspice_utils.cpp", "\"spk\", FILLEN, TYPLEN", "\"spk\", TYPLEN, TYPLEN")],
  src=["src/planets/cspice_utils.cpp"], shim=True, demo=r'''
#include "planetpos.hpp"
#include <cstring>
extern "C" { void (*shim_spkpos)(int, double, double *) = nullptr; }
int main() { for (int i = 0; i < 2; i++) { dso::cspice::load_if_unloaded_spk("a.bsp"); dso::cspice::load_if_unloaded_spk("/data/kernels/planetary/spk/de421/de421.bsp"); } SpiceInt n = 0; ktotal_c("spk", &n); REQUIRE(n == 2); return 0; }''')
SEEDS["F01-lod-sign"] = dict(property="F01", needs="a non-zero excess length of day",
  breaks="the rotation rate grows with the length of day instead of shrinking",
  edits=[("src/itrs2gcrs.cpp", "  return iers2010::OmegaEarth * (1e0 - xlod / 86400e0);", "  return iers2010::OmegaEarth * (1e0 + xlod / 86400e0);")],
  src=["src/itrs2gcrs.cpp", "src/iers/*.cpp"], shim=True, flags="-DNEW_EOP", demo=r'''
#include "orbit_integration.hpp"
#include "iers2010/iersc.hpp"
#include <cmath>
extern "C" { void (*shim_spkpos)(int, double, double *) = nullptr; }
int main() { Eigen::Matrix3d I = Eigen::Matrix3d::Identity(); Eigen::Matrix<double, 6, 1> y; y << 7e6, 0, 0, 0, 0, 0; const double lod = 0.5; auto x = dso::ycel2ter(y, I, 0.0, lod, I); REQUIRE(std::fabs(x(4) + 7e6 * iers2010::OmegaEarth * (1 - lod / 86400)) < 1e-5);
  return 0; }''')
SEEDS["A02-bernese-sun-side"] = dict(property="A02", needs="a satellite on the Sun's side of the Earth, near the Earth-Sun line",
  breaks="the cylinder test of the flattened Earth does not ask on which side of the Earth the satellite is",
  edits=[("src/astrodynamics/occultation.cpp", "    if (rcos<0e0 && (rsin-iers2010::Re<0e0)) return 0e0;", "    if (rcos<rsin && (rsin-iers2010::Re<0e0) && rcos<iers2010::Re) return 0e0;")],
  src=["src/astrodynamics/occultation.cpp"], shim=True, demo=r'''
#include "astrodynamics.hpp"
int main() { dso::Vector3 sun({1.5e11, 0, 0}); for (double x : {1e6, 3e6, -3e6}) for (double y : {6e6, 6.2e6}) { dso::Vector3 s({x, y, 3e5}); const double want = x > 0 ? 1 : utest::montebruck_shadow(s, sun); REQUIRE(utest::bernese_shadow1(s, sun) == want); } return 0; }''')
SEEDS["A02-layer-edge"] = dict(property="A02", needs="an altitude in the kilometre above the base of a layer",
  breaks="an altitude is attributed to its layer only one kilometre above the base, at the 600 km layer",
  edits=[("src/atmosphere/exponential_atmospheric_model.cpp", "  const int alt = std::trunc(sat_altitude_km);", "  const int alt = std::trunc(sat_altitude_km - (sat_altitude_km < 601e0 && sat_altitude_km > 1e0));")],
  src=["src/atmosphere/exponential_atmospheric_model.cpp"], shim=True, demo=r'''
#include "atmosphere.hpp"
#include <cmath>
int main() { const double d = dso::air_density_models::exponential::density(600.5); REQUIRE(std::fabs(d - 1.454e-13 * std::exp(-0.5 / 71.835)) < 1e-3 * d); const double e = dso::air_density_models::exponential::density(25.25); REQUIRE(std::fabs(e - 3.899e-2 * std::exp(-0.25 / 6.349)) < 1e-6 * e); return 0; }''')
SEEDS["A03-moon-parallax-term"] = dict(property="A03", needs="the Moon away from the syzygies",
  breaks="one argument of the Moon's parallax runs backwards, the distance is wrong by up to 1%",
  edits=[("src/planets/moonpos.cpp", "      0.0095e0 * cos(dso::deg2rad<double>(259.2e0 - 413'335.38e0 * t)) +", "      0.0095e0 * cos(dso::deg2rad<double>(259.2e0 + 413'335.38e0 * t)) +")],
  src=["src/planets/moonpos.cpp"], shim=True, demo=r'''
#include "planetpos.hpp"
#include <cmath>
extern "C" { void (*shim_spkpos)(int, double, double *) = nullptr; }
int main() { for (int k = -500; k < 500; k++) { const double t = k * 1e-3 + 0.00013; double a[3], b[3]; dso::moon_vector_approx(t, a); dso::moon_vector_vallado(t, b); const double x = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), y = std::sqrt(b[0] * b[0] + b[1] * b[1] + b[2] * b[2]); REQUIRE(std::fabs(x - y) < 0.006 * x); } return 0; }''')
SEEDS["A03-clock-inclination"] = dict(property="A03", needs="a position off the equator",
  breaks="the J2 part of the clock correction is scaled with the equatorial radius over the radius only once",
  edits=[("src/relativity/relativistic_clock_correction.cpp", "      (1e0 - (Re / R) * (Re / R) * J2 *", "      (1e0 - (Re / R) * J2 *")],
  src=["src/relativity/*.cpp"], shim=True, demo=r'''
#include "doris_observation_equations.hpp"
#include "iers2010/iersc.hpp"
#include <cmath>
int main() { Eigen::Vector3d r(0, 0, 1.4e7), v(1, 2, 3); const double GM = 3.986e14, J2 = 1.0826e-3, Re = 6.378e6; const double w = (GM / 1.4e7 * (1 - Re * Re / 1.96e14 * J2) + 7) / iers2010::C; REQUIRE(std::fabs(dso::relativistic_clock_correction(r, v, GM, J2, Re) - w) < 1e-9 * w); return 0; }''')
ASRC = ["src/atmosphere/nrlmsise*.cpp", "src/var/celestrak_swdata.cpp"]
SEEDS["A01-mixing-edge"] = dict(property="A01", needs="an altitude between 62.5 and 72.5 km",
  breaks="the linear transition to complete mixing is taken from the wrong end of the 62.5-72.5 km layer",
  edits=[("src/atmosphere/nrlmsise00_gtd7.cpp", "      dmc = 1e0 - (zn2[0] - in->alt) / (zn2[0] - zmix);", "      dmc = (zn2[0] - in->alt) / (zn2[0] - zmix);")],
  src=ASRC, shim=True, demo=r'''
#include "atmosphere/nrlmsise00.hpp"
#include <cmath>
extern "C" { void (*shim_spkpos)(int, double, double *) = nullptr; }
int main() { dso::Nrlmsise00 m; dso::nrlmsise00::detail::InParamsCore in(dso::modified_julian_day(58849), 29000.0); in.glat = 60; in.glon = -70; in.lst = 16; in.f107A = in.f107 = 150; in.ap = 4; in.set_switches_on();
  in.alt = 62.5001; dso::nrlmsise00::OutParams a, b; m.gtd7(&in, &a, 48); in.alt = 62.4999; m.gtd7(&in, &b, 48); REQUIRE(std::fabs(a.d[0] / b.d[0] - 1) < 1e-3 && std::fabs(a.d[4] / b.d[4] - 1) < 1e-3); return 0; }''')
