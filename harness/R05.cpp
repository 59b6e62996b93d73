// R05: differences of successive observations (Doppler counts).
#include "mc.hpp"
#include "doris_rinex.hpp"
#include "rnxgen.hpp"
#include <cmath>
#include <fcntl.h>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace rnx;
namespace {
struct F { std::string n, o; ~F() { ::unlink(n.c_str()); ::unlink(o.c_str()); } };
struct Line { std::string id; double l1, l2, dt; };
std::vector<Line> run(dso::DorisObsRinex &r, const char *out, int &rc) {
  fflush(stdout); int keep = dup(1), o = open(out, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); rc = r.get_doppler_counts(); fflush(stdout); dup2(keep, 1); close(keep); close(o);
  std::vector<Line> v; std::istringstream s(mc::read_file(out)); std::string l; while (std::getline(s, l)) { if (l.compare(0, 6, "Number") == 0) continue; std::istringstream q(l); Line x; double mjd; if (q >> x.id >> mjd >> x.l1 >> x.l2 >> x.dt) v.push_back(x); else v.push_back({"?" + l, 0, 0, 0}); }
  return v;
}
MC_SCENARIO("differences", 1, 3) {
  static const char *IN[] = {"D01", "D02", "D10", "D11"}; const int nb = c.choose(c.thorough() ? 4 : 3, "beacons") + 1, n = c.choose(c.thorough() ? 5 : 4, "blocks") + 1, layout = c.choose(4, "layout");
  Header H; H.st.clear(); H.refs.clear(); static const char *ID[] = {"ADHC", "AMVB", "DJIB", "KRWB"}; for (int i = 0; i < 4; i++) H.st.push_back({IN[i], ID[i], "NAME", "1234", 3, i});
  int p1 = 0, p2 = 1; if (layout == 1) { H.codes = {"C1", "L2", "W1", "F", "P", "L1"}; p1 = 5; p2 = 1; } else if (layout == 2) { H.codes = {"L2", "L1"}; p1 = 1; p2 = 0; } else if (layout == 3) { H.codes = {"L1", "F"}; p2 = -1; } else H.codes = {"L1", "L2"};
  struct Last { double l1, l2; bool m1, m2; int t; }; std::map<std::string, Last> last; std::vector<Line> want; std::string t = H.text(); int sec = 0;
  for (int i = 0; i < n; i++) {
    Block b; b.t = {2020, 1, 1, 23 * (i > 1), 59 * (i > 1), (double)sec}; b.has_off = false; b.off = 0; b.flag = b.cflag = 0; b.has_cflag = true; int mask = c.choose(1 << nb, "present"); const bool rev = c.deviate(2, "order"); const int ts = sec + (i > 1 ? 86340 : 0);
    for (int q = 0; q < nb; q++) { int k = rev ? nb - 1 - q : q; if (!(mask >> k & 1)) continue; int miss = c.deviate(4, "missing"); Beacon B; B.in = IN[k]; Last L{1000.25 * (k + 1) + 7.5 * i * i * (k + 2), -500.75 * (k + 1) + 3.25 * i * (k + 1), (miss & 1) != 0, (miss & 2) != 0, ts};
      for (int j = 0; j < (int)H.codes.size(); j++) { bool m = (j == p1 && L.m1) || (j == p2 && L.m2); B.v.push_back({m ? Val::BLANK : Val::NUM, j == p1 ? L.l1 : j == p2 ? L.l2 : 77.125 * j + i, ' ', ' '}); } b.b.push_back(B);
      auto it = last.find(B.in); if (it != last.end() && !L.m1 && !L.m2 && !it->second.m1 && !it->second.m2) want.push_back({B.in, L.l1 - it->second.l1, L.l2 - it->second.l2, double(L.t - it->second.t)}); last[B.in] = L; }
    for (auto &s : lines(b)) t += s + "\n"; sec += i % 2 ? 7 : 3;
  }
  F f{std::string(c.scratch()) + "/d.rnx", std::string(c.scratch()) + "/d.out"}; mc::write_file(f.n.c_str(), t); dso::DorisObsRinex r(f.n.c_str());
  for (int rep = 0; rep < 2; rep++) {
    int rc = -1; auto got = run(r, f.o.c_str(), rc); c.step(n);
    if (p2 < 0) { c.check(rc != 0 && got.empty(), "no 400 MHz phase, yet status %d and %zu lines", rc, got.size()); continue; }
    c.check(rc == 0, "status %d (call %d)", rc, rep); c.check(got.size() == want.size(), "%zu differences instead of %zu (call %d)\n%s", got.size(), want.size(), rep, t.c_str());
    for (size_t i = 0; i < want.size(); i++) c.check(got[i].id == want[i].id && mc::close(got[i].l1, want[i].l1, 0, 1e-4) && mc::close(got[i].l2, want[i].l2, 0, 1e-4) && mc::close(got[i].dt, want[i].dt, 0, 1e-6), "line %zu: %s %.5f %.5f %.7f instead of %s %.5f %.5f %.7f", i, got[i].id.c_str(), got[i].l1, got[i].l2, got[i].dt, want[i].id.c_str(), want[i].l1, want[i].l2, want[i].dt);
  }
  c.state(mc::Hash().s(t.c_str() + H.text().size()).i(layout).h); c.outcome(want.size());
}
} // namespace
MC_PROPERTY("R05", "model_checking",
  "every file over beacon counts, presence of every beacon in every block, layouts of the observables (either order, spread over two lines, one carrier absent), with up to the stated number of deviations (first, second or both values missing, reversed order in a block); two calls on each file",
  "up to 3 beacons, 4 blocks, 1 deviation (quick) / 4, 5 and 3",
  "differences are judged by what is printed; a value that is missing in either of the two observations gives no difference")
