// D02: antenna phase laws.
#include "mc.hpp"
#include "antenna_pcv.hpp"
#include <vector>
#define main phselaw_main
#include "var/antenna/phselaw.cc"
#undef main
namespace {
// DORIS system ground segment models, phase laws from 0 to 90 degrees by 5 (mm), 2 GHz
const double ALC[19] = {0.00, 2.05, 7.24, 9.21, 6.71, 8.14, 11.87, 12.48, 12.28, 13.67, 13.91, 13.01, 13.01, 11.87, 9.70, 7.94, 4.99, 0.41, -3.93};
const double STA[19] = {0.00, 0.06, -0.32, -1.12, -2.87, -4.02, -3.44, -2.15, -1.73, -1.73, -0.08, 1.37, 2.20, 5.37, 7.02, 10.70, 13.86, 17.27, 22.37};
struct Entry { const char *name; const double *tab; double up; double (*pcv)(double, int &); double (*dup)(); double (*de)(); double (*dn)(); };
template <class A> Entry mk(const char *n, const double *t, double up) { return {n, t, up, [](double z, int &o) { return A::pcv(z, o); }, [] { return A::dup(); }, [] { return A::deast(); }, [] { return A::dnorth(); }}; }
namespace S = dso;
const Entry E[] = {
  mk<S::AntennaOffset<S::GroundAntennaType::Alcatel, 1>>("Alcatel 2 GHz", ALC, 510), mk<S::AntennaOffset<S::GroundAntennaType::Alcatel, 2>>("Alcatel 400 MHz", nullptr, 335),
  mk<S::AntennaOffset<S::GroundAntennaType::Starec_B, 1>>("Starec B 2 GHz", STA, 487), mk<S::AntennaOffset<S::GroundAntennaType::Starec_B, 2>>("Starec B 400 MHz", nullptr, 0),
  mk<S::AntennaOffset<S::GroundAntennaType::Starec_C, 1>>("Starec C 2 GHz", STA, 487), mk<S::AntennaOffset<S::GroundAntennaType::Starec_C, 2>>("Starec C 400 MHz", nullptr, 0),
  mk<::AntennaOffset<::GroundAntennaType::Alcatel, 1>>("var Alcatel 2 GHz", ALC, 510), mk<::AntennaOffset<::GroundAntennaType::Alcatel, 2>>("var Alcatel 400 MHz", nullptr, 335),
  mk<::AntennaOffset<::GroundAntennaType::Starec_B, 1>>("var Starec B 2 GHz", STA, 487), mk<::AntennaOffset<::GroundAntennaType::Starec_B, 2>>("var Starec B 400 MHz", nullptr, 0),
  mk<::AntennaOffset<::GroundAntennaType::Starec_C, 1>>("var Starec C 2 GHz", STA, 487), mk<::AntennaOffset<::GroundAntennaType::Starec_C, 2>>("var Starec C 400 MHz", nullptr, 0)};
const double HP = 1.5707963267948966;
void one(mc::Ctx &c, const Entry &e, double z, int init) {
  int o = init; double v = e.pcv(z, o); c.step();
  bool out = !(z >= 0 && z <= HP);
  c.check((o != 0) == out, "%s: zenith %.17g rad: out-of-range indicator %d", e.name, z, o);
  double want = 0;
  if (!out && e.tab) {
    long double a = (long double)z * 180.0L / 3.14159265358979323846264338327950288L, k = a / 5.0L; int i = (int)k; if (i > 17) i = 17;
    want = (double)(e.tab[i] + (k - i) * ((long double)e.tab[i + 1] - e.tab[i]));
  }
  c.check(std::fabs(v - want) <= 1e-10, "%s: zenith %.17g rad: %.12g mm instead of %.12g", e.name, z, v, want);
}
MC_SCENARIO("phase-law", 0, 0) {
  int k = c.choose(12, "antenna"); const Entry &e = E[k]; int init = c.choose(3, "indicator before"); static const int INI[] = {0, 1, -559038737}; init = INI[init];
  int part = c.choose(3, "argument"); mc::Hash h; h.i(k).i(part);
  if (part == 0) { // every node, computed in several ways, and its neighbours
    int n = c.choose(19, "node"); h.i(n);
    double z[] = {n * 5.0 * HP / 90, n * (HP / 18), (n / 18.0) * HP, dso::deg2rad<double>(n * 5.0), dso::deg2rad<double>(5.0) * n};
    for (double x : z) { x = std::min(x, HP); double lo = x, hi = x; for (int j = 0; j < 4; j++) { one(c, e, lo, init); one(c, e, hi, init); lo = std::nextafter(lo, -1); hi = std::nextafter(hi, 10); } }
    one(c, e, std::min(HP, z[0] + 1e-9), init);
  } else if (part == 1) { // inside every interval
    int n = c.choose(18, "interval"); h.i(n); int m = c.thorough() ? 5000 : 200;
    for (int j = 0; j <= m; j++) one(c, e, std::min(HP, (n + (double)j / m) * 5.0 * HP / 90), init);
  } else { // outside
    for (double x : {-5e-324, -1e-300, -1e-15, -1e-3, -1.0, -1e300, HP + 3e-16, HP + 1e-9, 1.6, 3.0, 3.2, 4.7, 6.3, 90.0, 1e9, 1e300}) one(c, e, x, init);
    one(c, e, -INFINITY, init); one(c, e, INFINITY, init); one(c, e, NAN, init); one(c, e, 0.0, init); one(c, e, -0.0, init); one(c, e, HP, init);
    for (int j = 1; j < 500; j++) { one(c, e, HP + j * 0.01, init); one(c, e, -j * 0.01, init); }
  }
  c.check(e.dup() == e.up && e.de() == 0 && e.dn() == 0, "%s: offsets %g %g %g", e.name, e.de(), e.dn(), e.dup());
  c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("offset-vector", 0, 0) {
  Eigen::Matrix<double, 3, 1> v[3] = {S::AntennaOffset<S::GroundAntennaType::Alcatel, 1>::pco(), S::AntennaOffset<S::GroundAntennaType::Alcatel, 2>::pco(), S::AntennaOffset<S::GroundAntennaType::Starec_C, 1>::pco()};
  int k = c.choose(3, "antenna"); static const double U[] = {510, 335, 487};
  c.check(v[k](0) == 0 && v[k](1) == 0 && v[k](2) == U[k], "offset vector %d", k); c.step(); c.state(k); c.outcome(k);
}
} // namespace
MC_PROPERTY("D02", "model_checking",
  "every antenna type and carrier of both copies of the tables, three prior values of the indicator, every node computed five ways with its four floating-point neighbours on both sides, 200 (quick) / 5000 points of every interval, and arguments outside (denormal, negative, just above the last node, in degrees, infinite, not a number)",
  "complete over types, carriers, nodes and intervals; the stated grid inside intervals",
  "the published tables are copied into the check (the two copies in the repository agree with it); angle-unit conversions come from a stand-in for the external geodesy library")
