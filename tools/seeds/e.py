SEEDS = {}
XSRC = ["src/variational_equations.cpp", "src/itrs2gcrs.cpp", "src/sunmoon.cpp", "src/iers/*.cpp", "src/planets/cspice_utils.cpp", "src/gravity/*.cpp", "src/astrodynamics/drag.cpp", "src/atmosphere/nrlmsise*.cpp", "src/var/celestrak_swdata.cpp", "src/satellites/*.cpp"]
XWORLD = r'''
#include "orbit_integration.hpp"
#include "iers2010/iersc.hpp"
#include "swgen.hpp"
#include <cmath>
#include <memory>
#include <string>
extern "C" { void (*shim_spkpos)(int, double, double *) = nullptr; }
using Atm = dso::nrlmsise00::InParams<dso::nrlmsise00::detail::FluxDataFeedType::ST_CSV_SW>;
const long FIRST = 59574; const int N = 14;
void bodies(int target, double et, double *p) { double w = target == 10 ? 1.99e-7 : 2.66e-6, d = target == 10 ? 1.496e8 : 3.844e5; p[0] = d * std::cos(w * et); p[1] = d * 0.917 * std::sin(w * et); p[2] = d * 0.398 * std::sin(w * et); }
void files() {
  FILE *f = fopen("x.csv", "w"); fprintf(f, "%s\n", sw::HEAD); for (int i = 0; i < N; i++) fprintf(f, "%s\n", sw::join(sw::cols(FIRST + i, i)).c_str()); fclose(f);
  f = fopen("x.att", "w"); // no rotation: body axes are the inertial ones
  for (int i = 0; i < 14; i++) { int s = 8 * 3600 * i, day = 30 + s / 86400, mon = 12, y = 2021; if (day > 31) { day -= 31; mon = 1; y = 2022; } fprintf(f, "%04d/%02d/%02d %02d:%02d:%06.3f\t1234567890\t%.17g\t0001\t1234567891\t%.17g\t0002\t1234567892\t%.17g\t0003\t1234567893\t%.17g\t\n", y, mon, day, s % 86400 / 3600, 0, 0., 1., 0., 0., 0.); } fclose(f);
}
struct World { dso::EopLookUpTable eop{3}; dso::HarmonicCoeffs hc{2}; dso::Nrlmsise00 nrl; std::unique_ptr<Atm> atm; std::unique_ptr<dso::JasonQuaternionHunter> q; std::unique_ptr<dso::IntegrationParameters> p; std::vector<dso::MacroModelComponent> mm; double mass = 500, cd = 2;
  World() { shim_spkpos = bodies; hc.GM() = 3.986e14; hc.Re() = 6378136.3; hc.normalized() = false; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) { hc.C(i, j) = i == 0; if (j) hc.S(i, j) = 0; }
    eop.resize(N); for (int i = 0; i < N; i++) { *eop.mjd(i) = FIRST + i + (37 + 32.184) / 86400; *eop.xp(i) = *eop.yp(i) = *eop.dut(i) = *eop.dx(i) = *eop.dy(i) = *eop.lod(i) = 0; *eop.omega(i) = 7.292115e-5; }
    atm.reset(new Atm("x.csv", dso::modified_julian_day(FIRST + 5), 0)); atm->params_.meters_on(); q.reset(new dso::JasonQuaternionHunter("x.att")); p.reset(new dso::IntegrationParameters(2, 2, eop, hc, "k.tpc"));
    p->qhunt = q.get(); p->SatMass = &mass; p->AtmDataFeed = atm.get(); p->nrlmsise00 = &nrl; p->drag_coef = &cd; }
  void plate(double x, double y, double z) { dso::MacroModelComponent m{}; m.m_surf = 5; m.m_normal[0] = x; m.m_normal[1] = y; m.m_normal[2] = z; mm.push_back(m); p->macromodel = mm.data(); p->numMacroModelComponents = (int)mm.size(); }
  // acceleration by drag along the velocity
  double drag(double tai) { Eigen::VectorXd y = Eigen::VectorXd::Zero(48), a = y, b = y; y(0) = 6778e3; y(4) = 4e3; y(5) = 6.5e3; p->mjd_tai = tai; cd = 2; dso::VariationalEquations(0, y, a, *p); cd = 0; dso::VariationalEquations(0, y, b, *p); return (a - b).segment<3>(3).dot(y.segment<3>(3)) / y.segment<3>(3).norm(); } };
'''
SEEDS["X01-back-of-the-plate"] = dict(property="X01", needs="a plate whose outer side faces away from the flow", breaks="plates in the shade of the flow count as if they faced it",
  edits=[("src/variational_equations.cpp", "      if (ctheta > 0e0) {\n        ProjArea += params.macromodel[i].m_surf * ctheta;", "      if (ctheta != 0e0) {\n        ProjArea += params.macromodel[i].m_surf * std::abs(ctheta);")],
  src=XSRC, shim=True, flags="-DNEW_EOP", files=["harness/swgen.hpp"], demo=XWORLD + r'''
int main() { files(); World a, b; a.plate(0, 0.6, 0.8); b.plate(0, 0.6, 0.8); b.plate(0, -0.6, -0.8);
  double x = a.drag(FIRST + 6.3), y = b.drag(FIRST + 6.3); REQUIRE(x < 0); REQUIRE(std::fabs(x - y) < 1e-9 * std::fabs(x)); return 0; }''')
SEEDS["X01-utc-midnight"] = dict(property="X01", needs="an epoch in the seconds between midnight TAI and midnight UTC", breaks="the flux of the next day is used for the last seconds of a UTC day",
  edits=[("src/variational_equations.cpp", "      utc_fday += 1e0;\n      --imjd;", "      utc_fday += 1e0;")],
  src=XSRC, shim=True, flags="-DNEW_EOP", files=["harness/swgen.hpp"], demo=XWORLD + r'''
int main() { files(); World a; a.plate(0, 0.6, 0.8); double x = a.drag(FIRST + 6 - 5. / 86400), y = a.drag(FIRST + 6 + 20. / 86400); REQUIRE(x < 0); REQUIRE(std::fabs(x - y) < 0.01 * std::fabs(x)); return 0; }''')
YAML = dict(src=["src/var/yaml_utils.cpp"], shim=True, libs="-lyaml-cpp")
SEEDS["C01-long-path"] = dict(property="C01", needs="a file name of more than 63 characters", breaks="long texts come back cut and without terminator",
  edits=[("src/var/yaml_utils.cpp", "    std::strcpy(buf, result.c_str());", "    std::strncpy(buf, result.c_str(), result.size() < 64 ? result.size() + 1 : 64);")], **YAML, demo=r'''
#include "var_utils.hpp"
#include <string>
int main() { std::string p = "data/" + std::string(80, 'x') + "/a.bsp"; YAML::Node n = YAML::Load("naif-kernels:\n  spk: " + p + "\n"); char b[256] = ""; REQUIRE(!dso::get_yaml_value_depth2(n, "naif-kernels", "spk", b)); REQUIRE(p == b); return 0; }''')
SEEDS["C01-old-value-kept"] = dict(property="C01", needs="a key that is missing, or whose value is no number", breaks="a missing or malformed number is reported as read, with whatever the variable held before",
  edits=[("src/var_utils.hpp", "    val = node[std::string(key2)].as<T>();", "    val = node[std::string(key2)].as<T>(val);")], **YAML, demo=r'''
#include "var_utils.hpp"
int main() { YAML::Node n = YAML::Load("gravity:\n  degree: 50x\n"); int d = 7; REQUIRE(dso::get_yaml_value_depth2<int>(n, "gravity", "degree", d)); REQUIRE(dso::get_yaml_value_depth2<int>(n, "gravity", "order", d)); return 0; }''')
SEEDS["N01-request-order"] = dict(property="N01", needs="a requested station that the solution does not hold, followed by one it holds, missing stations tolerated",
  breaks="results are placed at the position of the request although missing stations leave no entry, so the last stations are cut off and an empty entry is returned",
  edits=[("src/ids/get_pdop_crd.cpp", "        std::memcpy(result_array[result_size].id, sid, 4 * sizeof(char));\n        result_array[result_size].x = pos[0];\n        result_array[result_size].y = pos[1];\n        result_array[result_size].z = pos[2];\n", "        auto &res = result_array[i];\n        std::memcpy(res.id, sid, 4 * sizeof(char));\n        res.x = pos[0];\n        res.y = pos[1];\n        res.z = pos[2];\n")],
  src=["src/ids/get_pdop_crd.cpp", "src/doris/doris_system_info.cpp"], shim=True, demo=r'''
#include "doris_system_info.hpp"
#include "doris_utils.hpp"
#include "sinex/sinex.hpp"
#include <cmath>
#include <cstring>
using namespace dso::sinex;
int main() { auto &f = shim_file(); f = ShimFile(); SiteId id; snprintf(id.m_site_code, 5, "DIOA"); snprintf(id.m_point_code, 3, " A"); f.sites.push_back(id); const char *C[] = {"STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ"};
  for (int k = 0; k < 6; k++) { SolutionEstimate e; snprintf(e.m_param_type, 7, "%-6s", C[k]); snprintf(e.m_site_code, 5, "DIOA"); snprintf(e.m_point_code, 3, " A"); snprintf(e.m_soln_id, 5, "   1"); snprintf(e.m_units, 5, "%-4s", k < 3 ? "m" : "m/y"); e.m_epoch = dso::datetime<dso::microseconds>(dso::modified_julian_day(58849), dso::microseconds(0)); e.m_estimate = k < 3 ? 1e6 * (k + 1) : 1.0; f.est.push_back(e); }
  std::vector<dso::BeaconStation> b(2); std::memcpy(b[0].m_station_id, "XXXX", 4); std::memcpy(b[1].m_station_id, "DIOA", 4); std::vector<dso::BeaconCoordinates> r;
  REQUIRE(dso::extrapolate_sinex_coordinates("x", b, dso::datetime<dso::microseconds>(dso::modified_julian_day(58849), dso::microseconds(0)), r, false) == 0); REQUIRE(r.size() == 1); REQUIRE(!strcmp(r[0].id, "DIOA")); REQUIRE(std::fabs(r[0].x - 1e6) < 1e-6); return 0; }''')
SEEDS["S02-before-the-first"] = dict(property="S02", needs="an epoch before the first record of the history", breaks="the corrections are left as the caller passed them instead of zero when no record applies yet",
  edits=[("src/satellites/satellite_corrections.cpp", "  for (int i = 0; i < 4; i++)\n    dmdxyz[i] = 0e0;\n", "")],
  src=["src/satellites/*.cpp"], shim=True, demo=r'''
#include "satellites.hpp"
int main() { FILE *f = fopen("m.txt", "w"); fprintf(f, "C comment\n2458849.5 0.0 -1.0 0.001 0.002 0.003\n2458850.5 0.0 -3.0 0.007 0.008 0.009\n"); fclose(f);
  double d[4] = {9, 9, 9, 9}; REQUIRE(dso::get_satellite_corrections("m.txt", dso::datetime<dso::nanoseconds>(dso::modified_julian_day(58840), dso::nanoseconds(0)), d) == 0); REQUIRE(d[0] == 0 && d[1] == 0 && d[3] == 0); return 0; }''')
