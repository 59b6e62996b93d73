// V01: flag sets.
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <map>
#include <numeric>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <iostream>
#include <limits>
#include <random>
#include <set>
#include <vector>
#include "enum_bitset.hpp"
namespace fl {
#define main flags_main
#include "var/flags.cc"
#undef main
}
namespace cm {
using std::chrono::high_resolution_clock;
#define main compound_main
#include "var/compound_measurement.cc"
#undef main
}
namespace {
enum class EC : unsigned char { a = 1, b = 2, c = 4, d = 8, e = 16, f = 32, g = 64, h = 128 };
enum class EI : int { a = 1, b = 2, c = 4, d = 1 << 15, e = 1 << 16, f = 1 << 30, g = 1 << 7, h = 1 << 8 };
enum class EL : unsigned long { a = 1, b = 2, c = 4, d = 1ul << 31, e = 1ul << 32, f = 1ul << 63, g = 1ul << 33, h = 1ul << 40 };
enum class ES : signed char { a = 1, b = 2, c = 4, d = 8, e = 16, f = 32, g = 64, h = -128 };
template <class E> const std::vector<E> &all() { static const std::vector<E> v{E::a, E::b, E::c, E::d, E::e, E::f, E::g, E::h}; return v; }

template <class E> void bitset_hist(mc::Ctx &c, int depth) {
  const auto &A = all<E>();
  mc::dirty_stack(0xff);
  unsigned model = 0, omodel = 0;
  dso::EnumBitset<E> f, other;
  switch (c.choose(4, "ctor")) {
  case 0: break;
  case 1: { int i = c.choose(8); c.note("from %d", i); f = dso::EnumBitset<E>(A[i]); model = 1u << i; break; }
  case 2: { int i = c.choose(8), j = c.choose(8); c.note("from {%d,%d}", i, j); f = dso::EnumBitset<E>({A[i], A[j]}); model = 1u << i | 1u << j; break; }
  case 3: { f = dso::EnumBitset<E>(std::initializer_list<E>{A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7]}); c.note("from all"); model = 255; break; }
  }
  for (int s = 0; s < depth; s++) {
    int op = c.choose(5, "op"), i = op < 2 ? c.choose(8, "flag") : 0;
    c.note("op %d %d", op, i);
    switch (op) {
    case 0: { auto *p = &f.set(A[i]); c.check(p == &f, "set returns another object"); model |= 1u << i; break; }
    case 1: { auto *p = &f.clear(A[i]); c.check(p == &f, "clear returns another object"); model &= ~(1u << i); break; }
    case 2: f.clear(); model = 0; break;
    case 3: other = f; omodel = model; break;
    case 4: std::swap(other, f); std::swap(model, omodel); break;
    }
    c.step(); c.state(mc::Hash().i(model).i(omodel).h);
    for (int k = 0; k < 8; k++) {
      c.check(f.check(A[k]) == (bool)(model >> k & 1), "flag %d reads %d", k, f.check(A[k]));
      c.check(other.check(A[k]) == (bool)(omodel >> k & 1), "other set's flag %d reads %d", k, other.check(A[k]));
    }
    c.check(f.is_clean() == !model, "is_clean");
    c.check((f == other) == (model == omodel) && (f != other) == (model != omodel), "equality");
  }
  c.outcome(model);
}
MC_SCENARIO("EnumBitset<unsigned char>", 0, 0) { bitset_hist<EC>(c, c.thorough() ? 4 : 2); }
MC_SCENARIO("EnumBitset<int>", 0, 0) { bitset_hist<EI>(c, c.thorough() ? 4 : 2); }
MC_SCENARIO("EnumBitset<unsigned long>", 0, 0) { bitset_hist<EL>(c, c.thorough() ? 4 : 2); }
MC_SCENARIO("EnumBitset<signed char>", 0, 0) { bitset_hist<ES>(c, c.thorough() ? 4 : 2); }

// every (state, operation) pair of the 12-event flag
void sp3_check(mc::Ctx &c, const fl::Sp3Flag &f, unsigned model) {
  for (int k = 0; k < 12; k++) c.check(f.is_set((fl::Sp3Event)k) == (bool)(model >> k & 1), "event %d reads %d", k, f.is_set((fl::Sp3Event)k));
  c.check(f.is_clean() == !model, "is_clean");
}
MC_SCENARIO("Sp3Flag-states", 0, 0) {
  unsigned s = c.choose(4096, "state");
  c.note("state %03x", s);
  fl::Sp3Flag base;
  sp3_check(c, base, 0);
  for (int k = 0; k < 12; k++) if (s >> k & 1) base.set((fl::Sp3Event)k);
  sp3_check(c, base, s);
  auto ev = [](int k) { return (fl::Sp3Event)k; };
  for (int k = 0; k < 12; k++) {
    fl::Sp3Flag f = base; f.set(ev(k)); sp3_check(c, f, s | 1u << k); c.step();
    f.clear(ev(k)); sp3_check(c, f, s & ~(1u << k)); c.step();
    f = base; f.clear(ev(k)); sp3_check(c, f, s & ~(1u << k)); c.step();
    f.reset(); sp3_check(c, f, 0); c.step();
    for (int j = 0; j < 12; j++) {
      f = base; f.set(ev(k) | ev(j)); sp3_check(c, f, s | 1u << k | 1u << j); c.step();
      int l = (k * 5 + j * 7 + (int)s) % 12;
      f = base; f.set(ev(k) | ev(j) | ev(l)); sp3_check(c, f, s | 1u << k | 1u << j | 1u << l); c.step();
      sp3_check(c, base, s);
    }
  }
  c.state(s); c.outcome(s & 15);
}
// the union operator over every subset, built in any order
MC_SCENARIO("Sp3Flag-union", 0, 0) {
  auto ev = [](int k) { return (fl::Sp3Event)k; };
  int n = c.choose(3) + 2, k[5]; unsigned m = 0;
  for (int i = 0; i < n; i++) { k[i] = c.choose(12, "event"); m |= 1u << k[i]; }
  auto w = ev(k[0]) | ev(k[1]);
  for (int i = 2; i < n; i++) w = w | ev(k[i]);
  fl::Sp3Flag f; f.set(w);
  c.step(); c.state(mc::Hash().i(m).i(n).h); c.outcome(m & 7);
  sp3_check(c, f, m);
}
MC_SCENARIO("Sp3Flag-history", 0, 0) {
  fl::Sp3Flag f; unsigned m = 0;
  for (int s = 0; s < (c.thorough() ? 5 : 4); s++) {
    int op = c.choose(4, "op"), i = op < 3 ? c.choose(4) * 11 / 3 : 0, j = op == 2 ? c.choose(4) * 11 / 3 : 0;
    c.note("op %d %d %d", op, i, j);
    if (op == 0) f.set((fl::Sp3Event)i), m |= 1u << i;
    else if (op == 1) f.clear((fl::Sp3Event)i), m &= ~(1u << i);
    else if (op == 2) f.set((fl::Sp3Event)i | (fl::Sp3Event)j), m |= 1u << i | 1u << j;
    else f.reset(), m = 0;
    c.step(); c.state(mc::Hash().i(s).i(m).h);
    sp3_check(c, f, m);
  }
  c.outcome(m);
}
// the packed observation flag: three independent bytes
MC_SCENARIO("packed-flag", 0, 0) {
  static const unsigned char V[] = {0, 1, 2, 16, 127, 128, 254, 255, 0x55, 0xaa};
  cm::Flag f; unsigned m[3] = {0, 0, 0};
  for (int s = 0; s < (c.thorough() ? 5 : 4); s++) {
    int w = c.choose(3, "which"); unsigned char v = V[c.choose(c.thorough() ? 6 : 10, "value")];
    c.note("field %d = %d", w, v);
    if (w == 0) f.set_flag1(v); else if (w == 1) f.set_flag2(v); else f.set_missing(v);
    m[w] = v;
    c.step(); c.state(mc::Hash().i(m[0]).i(m[1]).i(m[2]).h);
    c.check(f.get_flag1() == m[0] && f.get_flag2() == m[1] && f.get_missing() == m[2], "fields read %d %d %d, should be %d %d %d", f.get_flag1(), f.get_flag2(), f.get_missing(), m[0], m[1], m[2]);
  }
  c.outcome(mc::Hash().i(m[0]).i(m[1]).i(m[2]).h);
}
MC_SCENARIO("packed-flag-values", 0, 0) { // every value of every field against every value of another
  int w = c.choose(3), w2 = (w + 1 + c.choose(2)) % 3, v = c.choose(256);
  for (int u = 0; u < 256; u++) {
    cm::Flag f; unsigned m[3] = {0x11, 0x22, 0x33};
    auto set = [&](int k, int x) { m[k] = x; if (k == 0) f.set_flag1(x); else if (k == 1) f.set_flag2(x); else f.set_missing(x); };
    set(0, 0x11); set(1, 0x22); set(2, 0x33); set(w, v); set(w2, u);
    c.check(f.get_flag1() == m[0] && f.get_flag2() == m[1] && f.get_missing() == m[2], "fields %d=%d %d=%d read %d %d %d", w, v, w2, u, f.get_flag1(), f.get_flag2(), f.get_missing());
    c.step(5); c.state(mc::Hash().i(m[0]).i(m[1]).i(m[2]).h);
    // what an observation with this flag evaluates to
    cm::Measurement3 x{7.0, f};
    double want = m[2] ? -999.99e0 : m[0] > 16 ? 7.0 + 1e3 : m[1] < 16 ? 7.0 - 1e-3 : 7.0 / 1e3;
    c.check(cm::foo1(x) == want, "observation evaluates to %g instead of %g", cm::foo1(x), want);
  }
  c.outcome(v);
}
} // namespace
MC_PROPERTY("V01", "model_checking",
  "every history of set/clear/clear-all/copy/swap on flag sets over four underlying types and every constructor; every (state, operation) pair of the 12-event flag (all 4096 states) and every union of 2..4 events; every history of field writes on the packed flag and every pair of byte values",
  "depth 2 (quick) / 4 (thorough) for the generic set, 4/5 for the others; all states of the event flag",
  "enumerators of a flag enumeration are single bits")
