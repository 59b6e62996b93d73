// P01: loading ephemeris kernels on demand.
#include "mc.hpp"
#include "planetpos.hpp"
#include <algorithm>
namespace {
// names that are prefixes of one another, share a directory, or fill the name buffers
std::string nm(int k, int kind) {
  static const char *EXT[] = {".tls", ".bsp", ".tpc"}; std::string e = EXT[kind];
  switch (k) { case 0: return "k/de" + e; case 1: return "k/de" + e + "x" + e; case 2: return "k/d" + e; case 3: return "K/de" + e; case 4: return "k" + e; case 5: return std::string(120 - e.size(), 'p') + e; default: return std::string(100, 'q') + e; }
}
const int NK = 7; const char *FN[] = {"load_if_unloaded_lsk", "load_if_unloaded_spk", "load_if_unloaded_pck", "get_sun_moon_GM", "load_kernel"};
MC_SCENARIO("pool", 0, 0) {
  shim_kernels.clear(); shim_gm = 0; int L = c.choose(c.thorough() ? 5 : 4, "calls"); mc::Hash h; std::string hist;
  std::vector<std::string> want; bool text = false, binpck = false;
  for (int q = 0; q < L; q++) {
    int f = c.choose(6, "function"), k = c.choose(q == 0 ? NK : NK, "kernel"); if (f == 5) f = 2, binpck = true; else binpck = false;
    int kind = f == 0 ? 0 : f == 1 ? 1 : f == 4 ? k % 3 : 2; std::string n = nm(k, kind); if (binpck) n = n.substr(0, n.size() - 4) + ".bpc"; hist += std::string(FN[f]) + "(" + (n.size() > 20 ? n.substr(0, 3) + "..." + n.substr(n.size() - 5) : n) + ") ";
    mc::dirty_stack(0x41); double gs = -1, gm = -1; int e = 0;
    switch (f) { case 0: e = dso::cspice::load_if_unloaded_lsk(n.c_str()); break; case 1: e = dso::cspice::load_if_unloaded_spk(n.c_str()); break; case 2: e = dso::cspice::load_if_unloaded_pck(n.c_str()); break; case 3: e = dso::get_sun_moon_GM(n.c_str(), gs, gm); break; case 4: e = dso::cspice::load_kernel(n.c_str()); break; }
    c.step(); c.check(e == 0, "%s: status %d", hist.c_str(), e);
    // a plain load always loads; the others only when the kernel is not there
    if (f == 4 || std::find(want.begin(), want.end(), n) == want.end()) want.push_back(n);
    if (f == 3) c.check(gs == 1.32712440041279419e11 && gm == 4902.8001, "%s: GM of Sun %g, Moon %g", hist.c_str(), gs, gm);
    std::vector<std::string> have; for (auto &x : shim_kernels) have.push_back(x.file);
    c.check(have.size() == want.size(), "%s: %zu kernels loaded instead of %zu", hist.c_str(), have.size(), want.size()); for (size_t i = 0; i < want.size() && i < have.size(); i++) c.check(have[i] == want[i], "%s: kernel %zu is '%s' instead of '%s'", hist.c_str(), i, have[i].c_str(), want[i].c_str());
    c.evals(1); (void)text;
  }
  for (auto &x : shim_kernels) h.s(x.file.c_str()); c.state(h.h); c.outcome(h.h);
}
MC_SCENARIO("constants", 0, 0) { // no kernel named: whatever is loaded serves
  shim_kernels.clear(); shim_gm = 0; int pre = c.choose(3, "loaded"); if (pre == 1) dso::cspice::load_kernel("a.tpc"); if (pre == 2) { dso::cspice::load_kernel("b.bsp"); dso::cspice::load_kernel("a.tpc"); } double gs = -1, gm = -1; size_t n0 = shim_kernels.size(); if (!pre) c.skip();
  int e = dso::get_sun_moon_GM(nullptr, gs, gm); c.step(); c.check(e == 0 && gs == 1.32712440041279419e11 && gm == 4902.8001 && shim_kernels.size() == n0, "status %d, GM %g %g, %zu kernels", e, gs, gm, shim_kernels.size()); mc::Hash h; h.i(pre); c.state(h.h); c.outcome(h.h);
}
void none(int, double, double *p) { p[0] = p[1] = p[2] = 0; }
} // namespace
extern "C" void (*shim_spkpos)(int, double, double *) = none;
MC_PROPERTY("P01", "model_checking",
  "every sequence of load calls (leap-second, trajectory, text and binary orientation kernels, unconditional loads, constants) over kernel names that extend one another, differ in case, or nearly fill the name buffers; the list of loaded kernels is compared after every call",
  "sequences of up to 3 calls (quick) / 4 over 6 calls x 7 names",
  "the kernel list is a stand-in that follows CSPICE's documented kinds: SPK, PCK (binary) and TEXT (every text kernel, orientation constants included); names shorter than the code's 128-character buffers")
