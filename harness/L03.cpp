// L03: polynomial models.
#include "mc.hpp"
#include "datetime/dtcalendar.hpp"
#include "filters/models.hpp"
#include <new>
#include <utility>
namespace {
using DT = dso::datetime<dso::nanoseconds>;
template <class X> X xat(double v);
template <> double xat<double>(double v) { return v; }
template <> DT xat<DT>(double v) { // seconds around midnight
  long ns = (long)std::llround(v * 1e9); long day = 59000; const long D = 86400000000000L;
  ns += D - 20000000000L; while (ns < 0) { ns += D; --day; } while (ns >= D) { ns -= D; ++day; }
  return DT(dso::modified_julian_day(day), dso::nanoseconds(ns));
}
struct Mod { bool live{false}, full{false}; int order{0}; double ref{0}, cf[4]{}; bool moved{false}; };
template <class X> struct H {
  using P = dso::PolynomialModel<X>;
  alignas(P) static unsigned char st[2][sizeof(P)];
  static P &p(int i) { return *reinterpret_cast<P *>(st[i]); }
  static void eval(mc::Ctx &c, Mod *m, const char *w) {
    static const double A[] = {-86400.25, -3, -0.5, 0, 1, 2.25, 30, 7200};
    for (int i = 0; i < 2; i++) if (m[i].live && m[i].full) {
      c.check(p(i).order() == m[i].order, "after %s: model %d has order %d instead of %d", w, i, p(i).order(), m[i].order);
      for (double a : A) {
        double t = a - m[i].ref, y = 0, mag = 0; for (int k = m[i].order; k >= 0; k--) y = y * t + m[i].cf[k];
        for (int k = 0; k <= m[i].order; k++) mag += std::fabs(m[i].cf[k]) * std::pow(std::fabs(t), k);
        double v = p(i).value_at(xat<X>(a)); c.evals();
        c.check(std::fabs(v - y) <= 1e-9 * mag + 1e-12, "after %s: model %d of order %d at %g is %.12g instead of %.12g", w, i, m[i].order, a, v, y);
      }
    }
  }
  static void go(mc::Ctx &c, int depth) {
    size_t before = mc::heap_live(); mc::Hash h; double u = 0.5;
    {
      Mod m[2]; std::memset(st, 0xEE, sizeof st);
      auto fill = [&](int i) { for (int k = 0; k <= m[i].order; k++) { m[i].cf[k] = u; p(i).cf[k] = u; u = u < 0 ? -u + 0.75 : -u; } m[i].ref = (int)(u) % 2 ? 3.5 : -1.25; p(i).xref = xat<X>(m[i].ref); m[i].full = true; };
      for (int d = 0; d < depth; d++) {
        int i = c.choose(2, "which"), j = 1 - i, op = c.choose(9, "operation"); const char *w = "";
        h.i(i).i(op);
        switch (op) {
        case 0: { w = "construction"; if (m[i].live) p(i).~P(); int o = c.choose(4, "order"); new (st[i]) P(o); m[i] = Mod{}; m[i].live = true; m[i].order = o; h.i(o); c.check(p(i).order() == o, "order"); fill(i); break; }
        case 1: w = "copy construction"; if (!m[j].live || m[j].moved) c.skip(); if (m[i].live) p(i).~P(); new (st[i]) P(p(j)); m[i] = m[j]; break;
        case 2: w = "move construction"; if (!m[j].live || m[j].moved) c.skip(); if (m[i].live) p(i).~P(); new (st[i]) P(std::move(p(j))); m[i] = m[j]; m[j].full = false; m[j].moved = true; break;
        case 3: w = "copy assignment"; if (!m[i].live || !m[j].live || m[j].moved) c.skip(); { P &r = (p(i) = p(j)); c.check(&r == &p(i), "result"); } m[i] = m[j]; break;
        case 4: w = "move assignment"; if (!m[i].live || !m[j].live || m[j].moved) c.skip(); p(i) = std::move(p(j)); m[i] = m[j]; m[j].full = false; m[j].moved = true; break;
        case 5: w = "self assignment"; if (!m[i].live || m[i].moved) c.skip(); { P &q = p(i); if (c.flip("move")) p(i) = std::move(q); else p(i) = q; } break;
        case 6: { w = "order change"; if (!m[i].live) c.skip(); int o = c.choose(4, "order"); bool keep = !m[i].moved && o == m[i].order; p(i).resize(o); m[i].order = o; m[i].moved = false; h.i(o); if (!keep) { fill(i); } break; }
        case 7: w = "coefficient writes"; if (!m[i].live || m[i].moved) c.skip(); fill(i); break;
        case 8: w = "destruction"; if (!m[i].live) c.skip(); p(i).~P(); std::memset(st[i], 0xEE, sizeof st[i]); m[i] = Mod{}; break;
        }
        c.step(); eval(c, m, w); c.state(h.h);
      }
      for (int i = 0; i < 2; i++) if (m[i].live) p(i).~P();
    }
    c.check(mc::heap_live() == before, "leak of %ld bytes", (long)(mc::heap_live() - before));
    c.outcome(h.h);
  }
};
template <class X> unsigned char H<X>::st[2][sizeof(typename H<X>::P)];
MC_SCENARIO("histories", 0, 0) { H<double>::go(c, c.thorough() ? 5 : 4); }
MC_SCENARIO("histories-epochs", 0, 0) { H<DT>::go(c, c.thorough() ? 5 : 4); }
MC_SCENARIO("linear", 0, 0) {
  static const double V[] = {0, 1, -2.5, 1e6};
  dso::LinearModel<double> m; m.a = c.pick(V, "a"); m.b = c.pick(V, "b"); m.xref = c.pick(V, "reference");
  double x = c.pick(V, "x"); c.check(mc::close(m.value_at(x), m.a + m.b * (x - m.xref), 1e-15, 1e-9), "value %g", m.value_at(x)); c.check(m.order() == 1, "order");
  dso::LinearModel<double> k = m; k.a += 1; c.check(mc::close(m.value_at(x), m.a + m.b * (x - m.xref), 1e-15, 1e-9), "a copy is not independent");
  c.step(); mc::Hash h; h.d(m.value_at(x)); c.state(h.h); c.outcome(h.h);
}
} // namespace
MC_PROPERTY("L03", "model_checking",
  "every sequence of constructions, copies, moves, assignments (self included), order changes, coefficient writes and destructions over two real models, arguments being numbers or epochs around a day boundary; after each operation every filled model is evaluated at eight arguments, and the heap balance is checked at the end",
  "sequences of length 4 (quick) / 5, orders 0..3",
  "the coefficients after an order change and the value of a moved-from model are unspecified until written")
