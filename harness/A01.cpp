// A01: NRLMSISE-00 is a pure function of its inputs, and the published one.
#include "mc.hpp"
#include "atmosphere/nrlmsise00.hpp"
#include "msisref.hpp"
#include <memory>
namespace {
using dso::Nrlmsise00; using dso::nrlmsise00::OutParams; using P = dso::nrlmsise00::detail::InParamsCore;
const char *NM[11] = {"He", "O", "N2", "O2", "Ar", "total mass density", "H", "N", "anomalous O", "exospheric temperature", "temperature"};
double get(const OutParams &o, int i) { return i < 9 ? o.d[i] : o.t[i - 9]; }
void poison(OutParams &o) { for (double &v : o.d) v = -7e33; for (double &v : o.t) v = -7e33; }
bool near(double v, double r, double tol = 1e-9) { return r == 0 ? v == 0 : std::fabs(v - r) <= tol * std::fabs(r) + 1e-290; }
void base(P &p) { p.year = 0; p.doy = 172; p.sec = 29000; p.alt = 400; p.glat = 60; p.glon = -70; p.lst = 16; p.f107A = 150; p.f107 = 150; p.ap = 4; for (int i = 0; i < 7; i++) p.aparr.a[i] = 100; }
msis::Out ref(const P &p, int mass = 48) { msis::In q; q.doy = p.doy; q.sec = p.sec; q.alt = p.alt; q.lat = p.glat; q.lon = p.glon; q.lst = p.lst; q.f107A = p.f107A; q.f107 = p.f107; q.ap = p.ap; for (int i = 0; i < 7; i++) q.aph[i] = p.aparr.a[i]; for (int i = 0; i < 25; i++) { q.sw[i] = p.sw.sw[i]; q.swc[i] = p.sw.swc[i]; } return msis::Eval(q).run(mass); }
double rget(const msis::Out &r, int i, bool drag) { return i == 5 ? (drag ? r.rhod : r.rho) : i < 9 ? r.d[i] : r.t[i - 9]; }
uint64_t ph(const P &p, int x = 0) { mc::Hash h; h.d(p.alt).d(p.glat).d(p.glon).i(p.doy).d(p.sec).d(p.lst).d(p.f107A).d(p.f107).d(p.ap).i(x).i(p.meters()); h.bytes(&p.sw, sizeof p.sw); h.bytes(&p.aparr, sizeof p.aparr); return h.h; }
std::string say(const P &p) { char b[200]; snprintf(b, sizeof b, "alt %.10g lat %g lon %g day %d sec %g lst %g F10.7 %g/%g Ap %g%s", p.alt, p.glat, p.glon, p.doy, p.sec, p.lst, p.f107A, p.f107, p.ap, p.sw.sw[8] < 0 ? " (3-hourly)" : ""); return b; }
void compare(mc::Ctx &c, const OutParams &o, const P &p, const char *what, bool drag = false, double tol = 1e-9) {
  auto r = ref(p); double k = p.meters() ? 1e6 : 1, kr = p.meters() ? 1e3 : 1;
  for (int i = 0; i < 11; i++) { double e = rget(r, i, drag) * (i < 5 || (i > 5 && i < 9) ? k : i == 5 ? kr : 1); if (!near(get(o, i), e, tol)) { c.check(false, "%s: %s is %.12e instead of %.12e at %s", what, NM[i], get(o, i), e, say(p).c_str()); return; } }
  c.evals(11);
}
// the published test cases (Fortran results; cases 16 and 17 use the 3-hourly indices)
const double PUB[17][11] = {
  {666519.6409719251, 113881701.16302148, 19982453.007825945, 402284.2016927098, 3557.5508924301157, 4.074761147187049e-15, 34753.1621976745, 4095947.0591640756, 26672.63135389825, 1250.5399534247083, 1241.4162144009929},
  {3407301.7679929887, 158634995.91523418, 13911427.757045563, 326262.68550617906, 1559.6581895757042, 5.001902948565172e-15, 48542.12843117712, 4381006.715943605, 6956.658104018886, 1166.7544634585938, 1161.7105762046044},
  {112376.20318003581, 69339.8410486122, 42.46944831477056, 0.1322692817336911, 2.6187054192502074e-05, 2.7567274246210816e-18, 20167.476256832055, 5741.146249028645, 23743.747259298998, 1239.8920650799223, 1239.8905936075073},
  {54115175.9810812, 191888304774.7712, 6115773403260.706, 1225190508001.6968, 60231590470.30828, 3.584395815482149e-10, 10598712.29019793, 261571.8526710793, 2.8190980187257575e-42, 1027.3184649, 206.887747451908},
  {1851126.8734973464, 147656899.31658822, 15793827.33012078, 263384.55058206816, 1588.8194984695838, 4.809681521029159e-15, 58161.701422473285, 5479030.338664364, 1264.442683339887, 1212.3961508536536, 1208.1354694635452},
  {867312.1091822465, 127887476.70023495, 18226080.65924403, 292227.15410121286, 2403.0205128729704, 4.355915884223564e-15, 36863.93886305268, 3897308.9712679437, 26672.631353898258, 1220.1464053813427, 1212.712134824865},
  {577627.017164304, 69792095.57913871, 12368351.083007658, 249291.70765597362, 1405.7728009924988, 2.47068070000752e-15, 52919.93038070481, 1069822.4519933388, 26672.631353898258, 1116.3852817358552, 1112.9985096715398},
  {374031.6880625993, 47827747.09906644, 5240482.45763384, 175991.3659981463, 550.1800011540103, 1.5719086455414254e-15, 88967.85505188226, 1979759.3630542143, 9121.785804050642, 1031.2474470084687, 1024.8485495324373},
  {674835.820037363, 124532761.0050038, 23690497.41142455, 491167.7613155063, 4578.890145802133, 4.5644732638024255e-15, 32445.98257877436, 5370876.58621438, 26672.631353898258, 1306.0520521090039, 1293.3741478543986},
  {552861.6000662645, 119805264.35519552, 34958545.08549284, 933978.9167125026, 10962.811659168243, 4.974601394554244e-15, 26864.30252875799, 4890013.390274025, 28054.366330161738, 1361.8680824890348, 1347.3893486784577},
  {137537591082850.4, 0.0, 2.0495206338939847e+19, 5.498249004547393e+18, 2.4515341062322896e+17, 0.0012609632774704688, 0.0, 0.0, 0.0, 1027.3184649, 281.46477439742665},
  {44271162178800.56, 0.0, 6.597080816782785e+18, 1.7697988707183176e+18, 7.891098218994728e+16, 0.00040588401555455023, 0.0, 0.0, 0.0, 1027.3184649, 227.41798183862747},
  {2127705015053.6045, 0.0, 3.1706061570943277e+17, 8.505785137636954e+16, 3792520554808380.0, 1.950708797608776e-05, 0.0, 0.0, 0.0, 1027.3184649, 237.43890836745206},
  {141211907004.3201, 0.0, 2.1042735653450016e+16, 5645134693751036.0, 251702682518742.38, 1.2946499038707189e-06, 0.0, 0.0, 0.0, 1027.3184649, 279.5550991077457},
  {12548424343.681757, 0.0, 1874469970742227.8, 492288569787519.9, 22396102350670.71, 1.1476291758483399e-07, 0.0, 0.0, 0.0, 1027.3184649, 219.07322158855095},
  {519649.0944287523, 127450929.13037574, 48505567.66797526, 1720881.1501689258, 23545.640229471355, 5.882034376977491e-15, 25000.772613316094, 6279273.0460183, 26672.631353898258, 1426.4149128715148, 1408.6108737313816},
  {42608362.77097849, 124133631423.03014, 4929527003120.657, 1048399357180.4738, 49934295579.14292, 2.9142831824960565e-10, 8831165.115632128, 225250.3040163924, 2.414578533801006e-42, 1027.3184649, 193.40710795797762}
};
void pub(P &p, int k) { base(p); if (k == 1) p.doy = 81; if (k == 2) { p.sec = 75000; p.alt = 1000; } if (k == 3 || k == 16) p.alt = 100; static const double LOW[] = {0, 10, 30, 50, 70}; if (k >= 10 && k < 15) p.alt = LOW[k - 10]; if (k == 4) p.glat = 0; if (k == 5) p.glon = 0; if (k == 6) p.lst = 4; if (k == 7) p.f107A = 70; if (k == 8) p.f107 = 180; if (k == 9) p.ap = 40; if (k >= 15) p.use_aparray(); }
MC_SCENARIO("published", 0, 0) { // every order of the published cases, two (three) at a time, on one instance
  Nrlmsise00 m; int n = c.thorough() ? 3 : 2; mc::Hash h; for (int s = 0; s < n; s++) { int k = c.choose(17, "case"); P p; pub(p, k); OutParams o; poison(o); c.check(m.gtd7(&p, &o) == 0, "status"); c.step(); h.i(k);
    for (int i = 0; i < 11; i++) c.check(near(get(o, i), PUB[k][i], 2e-6) || (PUB[k][i] && std::fabs(PUB[k][i]) < 1e-30 && near(get(o, i), PUB[k][i], 1e-3)), "case %d as evaluation %d: %s is %.10e, published %.10e", k + 1, s, NM[i], get(o, i), PUB[k][i]); h.q(get(o, 5)); }
  c.state(h.h); c.outcome(h.h); }
const double ALT[] = {400, 0, 10, 32.5, 50, 62.5, 70, 80, 90, 100, 110, 150, 240, 450, 800, 5, 15, 20, 25, 30, 32.49999999, 32.50000001, 40, 45, 55, 62.49999999, 62.50000001, 65, 72.49999999, 72.5, 72.50000001, 75, 85, 95, 97.5, 105, 115, 119.99, 120, 121, 123.435, 123.4350000001, 123.5, 125, 130, 140, 160, 160.0000001, 180, 199.9999, 200, 200.0000001, 220, 240.0000001, 250, 250.0000001, 270, 299.99999, 300, 300.0000001, 310, 320, 320.0000001, 350, 449.99999, 450.0000001, 500, 600, 1000, 1500, 2500};
const double LAT[] = {60, 0, -35.5, 90, -90, 12, 44.999, 78}, LON[] = {-70, 0, 180, -180, 255.5, 33}, SEC[] = {29000, 0, 86399.5, 43200, 61234.25}, LST[] = {16, 0, 4.5, 23.99, 12}, FA[] = {150, 70, 230, 149}, F7[] = {150, 65, 280, 151}, AP[] = {4, 0, 40, 130, 15};
const int DOY[] = {172, 1, 81, 366, 300};
void point(mc::Ctx &c, P &p, int na) { base(p); p.alt = ALT[c.choose(na, "altitude")]; p.glat = LAT[c.deviate(8, "latitude")]; p.glon = LON[c.deviate(6, "longitude")]; p.doy = DOY[c.deviate(5, "day")]; p.sec = SEC[c.deviate(5, "seconds")]; p.lst = LST[c.deviate(5, "local time")]; p.f107A = FA[c.deviate(4, "F10.7 average")]; p.f107 = F7[c.deviate(4, "F10.7")]; p.ap = AP[c.deviate(5, "Ap")];
  static const double A[5][7] = {{100, 100, 100, 100, 100, 100, 100}, {4, 5, 7, 15, 27, 9, 12}, {0, 0, 0, 0, 0, 0, 0}, {4, 400, 3, 2, 300, 1, 200}, {12, 2, 80, 6, 48, 111, 3}}; int k = c.deviate(6, "3-hourly indices"); if (k) { p.use_aparray(); p.set_ap_array(A[k - 1]); } }
MC_SCENARIO("inputs", 3, 4) { P p; point(c, p, sizeof ALT / sizeof *ALT); Nrlmsise00 m; OutParams o; poison(o); mc::dirty_stack(0x5a); c.check(m.gtd7(&p, &o) == 0, "status"); c.step(); compare(c, o, p, "gtd7"); for (int i = 0; i < 8; i++) c.check(std::isfinite(o.d[i]) && o.d[i] >= 0, "%s is %g at %s", NM[i], o.d[i], say(p).c_str()); c.state(ph(p)); mc::Hash h; h.q(o.d[5]).q(o.t[1]); c.outcome(h.h); }
MC_SCENARIO("grid", 0, 0) { // full product of the few
  P p; base(p); p.alt = ALT[c.choose(15, "altitude")]; p.glat = LAT[c.choose(4, "latitude")]; p.lst = LST[c.choose(4, "local time")]; p.doy = DOY[c.choose(4, "day")]; p.f107 = F7[c.choose(3, "F10.7")]; p.f107A = FA[c.choose(3, "F10.7 average")]; int a = c.choose(3, "Ap"); p.ap = AP[a]; if (a == 2) p.use_aparray(); p.glon = LON[c.choose(c.thorough() ? 4 : 1, "longitude")];
  static thread_local std::unique_ptr<Nrlmsise00> m; if (!m) m.reset(new Nrlmsise00); OutParams o; poison(o); m->gtd7(&p, &o); c.step(); compare(c, o, p, "grid"); c.state(ph(p)); mc::Hash h; h.q(o.d[5]); c.outcome(h.h); }
// evaluations over several instances: each must equal the same evaluation by a fresh instance
MC_SCENARIO("histories", 0, 0) { static const int N = 15; auto mk = [](P &p, int k) { base(p); switch (k) { case 1: p.glat = -20; break; case 2: p.alt = 20; break; case 3: p.lst = 3; break; case 4: p.doy = 20; break; case 5: p.use_aparray(); break; case 6: p.set_switch(1, 0); break; case 7: p.f107A = 90; break; case 8: p.glon = 100; break; case 9: p.meters_on(); break; case 10: p.alt = 120; break; case 11: p.alt = 65; p.ap = 50; break; case 12: p.set_switches_off(); break; case 13: p.glat = 90; p.alt = 32.5; break; case 14: p.glat = -60; p.set_switch(6, 2); break; } };
  Nrlmsise00 *m[3]; for (auto &x : m) x = new Nrlmsise00; static const int MASS[] = {48, 48, 0, 28}; int n = c.thorough() ? 4 : 3; mc::Hash h;
  for (int s = 0; s < n; s++) { int k = c.choose(n == 4 && s < 2 ? 8 : N, "inputs"), w = s ? c.choose(std::min(s + 1, 3), "instance") : 0; P p; mk(p, k); P before = p; OutParams o, e; poison(o); poison(e); int mass = MASS[s == 0 ? c.choose(4, "mass") : 0]; m[w]->gtd7(&p, &o, mass); c.step();
    c.check(!memcmp(&before.sw, &p.sw, sizeof p.sw) && before.alt == p.alt && before.doy == p.doy, "inputs were changed");
    { static thread_local char mem[sizeof(Nrlmsise00) + 64]; memset(mem, 0x7b, sizeof mem); auto *f = new (mem) Nrlmsise00; f->gtd7(&p, &e, mass); for (int i = 0; i < 11; i++) if (mass == 48) c.check(near(get(o, i), get(e, i), 1e-13), "evaluation %d (inputs %d on instance %d): %s is %.15e, on a fresh instance %.15e", s, k, w, NM[i], get(o, i), get(e, i)); else c.check(near(get(o, 10), get(e, 10), 1e-13) && (mass == 0 || near(get(o, 2), get(e, 2), 1e-13)), "evaluation %d: mass %d", s, mass); f->~Nrlmsise00(); }
    h.i(k).i(w).q(get(o, 5)); }
  for (auto &x : m) delete x; c.state(h.h); c.outcome(h.h); }
MC_SCENARIO("switches", 0, 0) { P p; base(p); static const double A[] = {400, 100, 70, 20, 150, 32.5, 250}; int i = c.choose(25, "switch"), vi = c.choose(4, "value"); static const int V[] = {0, 1, 2, -1}; p.alt = A[c.choose(c.thorough() ? 7 : 4, "altitude")]; bool hourly = c.flip("3-hourly indices"); p.f107 = 190; p.f107A = 130; p.ap = 30; p.aparr.a[2] = 20;
  if (V[vi] == -1 && i != 8) c.skip(); if (hourly) p.use_aparray(); bool off = c.flip("all others off"); if (off) { p.set_switches_off(); if (hourly && i != 8) p.set_switch(8, -1); } p.set_switch(i, V[vi]);
  double ms = V[vi] == 0 ? 0 : V[vi] == 1 ? 1 : V[vi] == 2 ? 0 : -1, mc_ = V[vi] == 1 || V[vi] == 2; c.check(p.sw.sw[i] == ms && p.sw.swc[i] == mc_, "switch %d set to %d: main %g, cross %g", i, V[vi], p.sw.sw[i], p.sw.swc[i]);
  int j = off ? 0 : c.choose(26, "second switch") - 1, v2 = j >= 0 && !off ? c.choose(2, "second value") : 0; if (!off && j >= 0) { if (j <= i) c.skip(); p.set_switch(j, v2 ? 2 : 0); }
  // inactive solar/geomagnetic terms can drive the lower boundary of the spline; only finite reference results count
  auto r = ref(p); for (int k = 0; k < 9; k++) if (!std::isfinite((double)r.d[k])) c.skip(); Nrlmsise00 m; OutParams o; poison(o); m.gtd7(&p, &o); c.step(); compare(c, o, p, "switches"); c.state(ph(p)); mc::Hash h; h.q(o.d[5]); c.outcome(h.h); }
MC_SCENARIO("masses", 0, 0) { static const int M[] = {48, 0, 4, 16, 28, 32, 40, 1, 49, 14, 17}; int mi = c.choose(11, "mass"), mass = M[mi]; P p; base(p); p.alt = ALT[c.choose(c.thorough() ? 68 : 30, "altitude")]; int w = c.choose(3, "conditions"); if (w == 1) { p.glat = -35; p.ap = 40; p.f107 = 210; } if (w == 2) p.use_aparray(); bool met = c.flip("metres"), drag = c.flip("drag form"); if (met) p.meters_on();
  Nrlmsise00 m, f; P q = p; q.meters_ = false; OutParams o, e; poison(o); poison(e); int rc = drag ? m.gtd7d(&p, &o, mass) : m.gtd7(&p, &o, mass); f.gtd7(&q, &e, 48); c.step(); c.check(rc == 0, "status %d", rc); double k = met ? 1e6 : 1;
  c.check(near(o.t[0], e.t[0], 1e-12) || mass != 48, "exospheric temperature"); static const int SP[] = {-1, -1, 0, 1, 2, 3, 4, 6, 7, 7, 8}; (void)SP;
  bool smooth = p.alt >= 72.5; // below, the shape of the lower layers follows the gas asked for
  static const int IX[9] = {4, 16, 28, 32, 40, -1, 1, 14, 17}; double tol = smooth ? 1e-11 : 1e-2;
  for (int i = 0; i < 9; i++) { if (i == 5) continue; bool asked = mass == 48 || mass == IX[i] || (i == 7 && mass == 49) || (i == 8 && mass == 17); (void)asked; if (mass == 48 || (mass == IX[i] && i != 8 && i != 7) || (mass == 14 && i == 7)) c.check(near(o.d[i], e.d[i] * k, tol), "mass %d: %s is %.10e instead of %.10e at %s", mass, NM[i], o.d[i], e.d[i] * k, say(p).c_str()); else c.check(o.d[i] != -7e33, "mass %d: %s was not written", mass, NM[i]); }
  c.check(near(o.t[1], e.t[1], smooth ? 1e-12 : 1e-3), "mass %d: temperature %.10g instead of %.10g at %s", mass, o.t[1], e.t[1], say(p).c_str());
  if (mass == 48) { compare(c, o, p, drag ? "gtd7d" : "gtd7", drag); double s = 1.66e-24 * (4 * e.d[0] + 16 * e.d[1] + 28 * e.d[2] + 32 * e.d[3] + 40 * e.d[4] + e.d[6] + 14 * e.d[7] + (drag ? 16 * e.d[8] : 0)); c.check(near(o.d[5], s * (met ? 1e3 : 1), 1e-12), "total mass density %.12e is not the sum of its gases %.12e", o.d[5], s); }
  c.state(ph(p, mass * 2 + drag)); mc::Hash h; h.q(o.d[2]).q(o.t[1]).i(mass); c.outcome(h.h); }
MC_SCENARIO("layers", 0, 0) { // no jump across a layer boundary
  static const double B[] = {10, 15, 20, 32.5, 45, 55, 62.5, 72.5, 90, 100, 110, 123.435}; double b = B[c.choose(12, "boundary")]; P p; base(p); p.glat = LAT[c.choose(8, "latitude")]; p.lst = LST[c.choose(5, "local time")]; p.doy = DOY[c.choose(5, "day")]; p.ap = AP[c.choose(3, "Ap")]; Nrlmsise00 m; OutParams lo, hi, at; p.alt = b - 1e-7; m.gtd7(&p, &lo); p.alt = b + 1e-7; m.gtd7(&p, &hi); p.alt = b; m.gtd7(&p, &at); c.step();
  c.check(near(hi.t[1], at.t[1], b == 123.435 ? 2e-2 : 1e-6) && near(lo.t[1], at.t[1], 1e-6), "temperature jumps at %g km: %.9g %.9g %.9g", b, lo.t[1], at.t[1], hi.t[1]); for (int i : {2, 5}) c.check(near(lo.d[i], at.d[i], 2e-6) && near(at.d[i], hi.d[i], b == 72.5 || b == 123.435 ? 5e-2 : 2e-6), "%s jumps at %g km: %.9e %.9e %.9e at %s", NM[i], b, lo.d[i], at.d[i], hi.d[i], say(p).c_str());
  c.state(ph(p)); mc::Hash h; h.q(at.d[5]); c.outcome(h.h); }
} // namespace
MC_PROPERTY("A01", "model_checking",
  "the published test cases in every order on one instance; inputs over altitudes (both sides of every layer and gas limit), latitude, longitude, day, time, local time, flux and geomagnetic indices (daily and 3-hourly); histories of evaluations over up to three instances; every switch alone, alone with all others off, and in pairs; every mass code, metre mode and the drag form; both sides of every layer boundary",
  "pairs of published cases, 70 altitudes with up to three inputs off nominal, 3 evaluations over 15 inputs and 3 instances, all switch pairs at 4 altitudes (quick) / triples, four inputs, 4 evaluations, 7 altitudes",
  "the model's tables are copied once from the repository at the pinned commit and hold no oracle but the published cases; the equations are evaluated independently in extended precision")
