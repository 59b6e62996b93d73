// G02: de-normalisation of coefficient sets.
#include "mc.hpp"
#include "harmonic_coeffs.hpp"
#include <cmath>
#include <vector>
using dso::HarmonicCoeffs;
#ifdef VAR_COPY
#define SFX "-var"
#else
#define SFX ""
#endif
namespace {
// exact factor in extended precision
long double factor(int n, int m) {
  return sqrtl((m ? 2.L : 1.L) * (2 * n + 1)) * expl(0.5L * (lgammal(n - m + 1.L) - lgammal(n + m + 1.L)));
}
double val(int n, int m, int s) { return (1 + (n * 7 + m * 13 + s * 5) % 97) * ((n + m + s) % 2 ? -1e-3 : 1e-3); }
struct Model {
  int N; std::vector<long double> f; bool norm{true};
  int idx(int n, int m) const { return n * (N + 1) + m; }
};
void verify(mc::Ctx &c, const HarmonicCoeffs &h, const Model &M) {
  for (int n = 0; n <= M.N; n++) for (int m = 0; m <= n; m++)
    for (int s = 0; s <= (m > 0); s++) {
      long double e = val(n, m, s) * M.f[M.idx(n, m)];
      double g = s ? h.S(n, m) : h.C(n, m);
      c.check(std::fabs((long double)g - e) <= 1e-12L * fabsl(e) + 1e-300L, "degree %d set: %s(%d,%d) is %.17g, expected %.17Lg", M.N, s ? "S" : "C", n, m, g, e);
      c.step();
    }
#ifndef VAR_COPY
  c.check(h.normalized() == M.norm, "normalisation state is %d, expected %d", h.normalized(), M.norm);
#endif
}
void run(mc::Ctx &c, int N, int depth) {
  c.note("degree %d", N);
  size_t before = mc::heap_live();
  long bad = 0;
  {
    HarmonicCoeffs h(N);
    Model M; M.N = N; M.f.assign((N + 1) * (N + 1), 1.L);
    for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) { h.C(n, m) = val(n, m, 0); if (m) h.S(n, m) = val(n, m, 1); }
    for (int d = 0; d < depth; d++) {
      static const int rel[8] = {-1, 0, 1, 2, -2, -3, -4, 1000}; // -2: N/2, -3: N-1, -4: N
      int op = c.choose(d ? 10 : 8, "op");
      if (op < 8) {
        int o = rel[op];
        if (o == -2) o = N / 2; if (o == -3) o = N > 0 ? N - 1 : 0; if (o == -4) o = N; if (o == 1000) o = N + 1;
        c.note("denormalize(%d)", o);
        int rc = h.denormalize(o);
        bool noop = !M.norm;
        if (noop) { /* status of a refused order on an already converted set is not specified */ if (o <= N) c.check(rc == 0, "conversion of a converted set returned %d", rc); }
        else if (o > N) c.check(rc != 0, "order above the degree accepted");
        else {
          c.check(rc == 0, "denormalize(%d) returned %d", o, rc);
          int mo = o < 0 ? N : o;
          for (int n = 1; n <= N; n++) for (int m = 0; m <= n && m <= mo; m++) M.f[M.idx(n, m)] *= factor(n, m);
          M.norm = false;
        }
      } else {
#ifndef VAR_COPY
        bool v = op == 8;
        c.note("normalized()=%d", v);
        h.normalized() = v; M.norm = v;
#else
        c.skip();
#endif
      }
      verify(c, h, M);
      c.state(mc::Hash().i(N).i(M.norm).d((double)M.f[M.idx(N, N)]).d((double)M.f[M.idx(N, N / 2)]).d((double)M.f[M.idx(N, 0)]).h);
#ifdef VAR_COPY
      break; // this copy keeps no conversion state
#endif
    }
  }
  c.check(mc::heap_live() == before, "leak");
}
MC_SCENARIO("sequences" SFX, 0, 0) { run(c, c.choose(c.thorough() ? 30 : 13, "degree"), 3); }
MC_SCENARIO("every-degree" SFX, 0, 0) { run(c, c.choose(c.thorough() ? 361 : 181, "degree"), 1); }
} // namespace
#ifndef VAR_COPY
MC_PROPERTY("G02", "model_checking",
  "every degree up to the bound x every order limit class {default, 0, 1, 2, N/2, N-1, N, N+1} x every sequence of conversions and state changes up to length 3; each coefficient compared with the extended-precision factor; a state is (degree, normalisation flag, factors applied)",
  "degrees 0..180 with one call and 0..12 with three (quick); 0..360 and 0..29 (thorough)",
  "factors below the smallest normal double compare as zero (absolute tolerance 1e-300)")
#endif
