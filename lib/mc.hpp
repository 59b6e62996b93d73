// Bounded exhaustive explorer for real code ("stateless model checking" of
// choice sequences).  A scenario is a function of a Ctx; every Ctx::choose /
// Ctx::deviate is a branch point; the explorer runs the scenario once for
// every sequence of answers (all of them, subject only to the deviation
// budget), in worker processes so that a crash, a sanitizer report, a failed
// assertion in the code under test or a hang is a reported violation of the
// choice sequence that provoked it and not the end of the search.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Fail {}; // thrown by Ctx::check; details are in the Ctx
struct Skip {}; // thrown by Ctx::skip; the execution is not counted

struct Hash {
  uint64_t h{1469598103934665603ull};
  void bytes(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  }
  Hash &u(uint64_t v) { bytes(&v, 8); return *this; }
  Hash &i(long long v) { bytes(&v, 8); return *this; }
  Hash &d(double v) { if (v == 0) v = 0; bytes(&v, 8); return *this; }
  // quantised double: insensitive to rounding
  Hash &q(double v) { char b[40]; int n = std::snprintf(b, sizeof b, "%.6e", v); bytes(b, n); return *this; }
  Hash &s(const char *v) { bytes(v, std::strlen(v) + 1); return *this; }
};

class Ctx {
public:
  static constexpr int MAXC = 8192;
  // ---- branching
  int choose(int n, const char *label = "");           // 0..n-1, free
  int deviate(int n, const char *label = "");          // 0 free, 1..n-1 cost 1
  int deviate_cost(int n, int cost, const char *label = "");
  bool flip(const char *label = "") { return choose(2, label) == 1; }
  template <class T, size_t N> const T &pick(const T (&a)[N], const char *label = "") {
    return a[choose((int)N, label)];
  }
  template <class T> const T &pick(const std::vector<T> &a, const char *label = "") {
    return a[choose((int)a.size(), label)];
  }
  int budget_left() const { return budget - spent; }
  // ---- oracle
  void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  // as check, but the failure carries a key that a known-findings entry may list
  void check_key(bool ok, const char *key, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void skip() { throw Skip{}; }
  // ---- coverage
  void step(long n = 1) { transitions += n; }
  void state(uint64_t h) { if (nst < MAXS) st[nst++] = h; }
  void outcome(uint64_t h) { if (nout < MAXS) out[nout++] = h; }
  void evals(long n = 1) { nevals += n; }
  // ---- trace (kept in static storage: never touches the heap)
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  const char *scratch() const { return scratch_dir; }
  bool thorough() const { return thorough_; }
  int worker() const { return worker_; }

  // ---- internals
  int depth{0}, nprefix{0}, spent{0}, budget{0};
  int choice[MAXC], arity[MAXC], cost[MAXC]; // cost of taking a non-zero answer
  const char *label[MAXC];
  bool replaying{false};
  bool thorough_{false};
  int worker_{0};
  const char *scratch_dir{""};
  static constexpr int MAXS = 1 << 16;
  uint64_t *st, *out; int nst{0}, nout{0};
  long transitions{0}, nevals{0};
  char trace[1 << 16]; int ntrace{0};
  char msg[4096], key[128];
  int shard{0}, nshards{1};
  // sharding: a prefix with at least SHARD_AT alternatives is explored by one shard
  static constexpr long SHARD_AT = 300;
  long prod{1}; bool decided{false}, foreign{false};
  bool unwind{true}; // may leave by an exception from choose(); cleared where code under test is on the stack
  bool owns() const;
  void begin();
};

struct Scenario {
  const char *name;
  std::function<void(Ctx &)> fn;
  int quick_budget{0};    // deviation budget
  int thorough_budget{0};
  bool quick{true};       // run in the quick tier
};

struct Property {
  const char *id;
  const char *level;      // model_checking | exploration | fault_enumeration
  const char *rule;       // how cases are made, what is non-trivial
  const char *bound;      // stated bound
  std::vector<const char *> assumptions;
  std::vector<Scenario> scenarios;
  double hang_s{60};
};

// scenarios may be registered from several translation units
struct Reg { Reg(const char *name, std::function<void(Ctx &)> fn, int qb = 0, int tb = 0, bool quick = true); };
std::vector<Scenario> &registry();
// each property's main unit defines this
#define MC_PROPERTY(ID, LEVEL, RULE, BOUND, ...) \
  int main(int argc, char **argv) { mc::Property p{ID, LEVEL, RULE, BOUND, {__VA_ARGS__}, mc::registry()}; return mc::run(argc, argv, p); }
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(NAME, QB, TB) \
  static void MC_CAT(scn_, __LINE__)(mc::Ctx &); \
  static mc::Reg MC_CAT(reg_, __LINE__)(NAME, MC_CAT(scn_, __LINE__), QB, TB); \
  static void MC_CAT(scn_, __LINE__)(mc::Ctx &c)
#define MC_SCENARIO_T(NAME, QB, TB) \
  static void MC_CAT(scn_, __LINE__)(mc::Ctx &); \
  static mc::Reg MC_CAT(reg_, __LINE__)(NAME, MC_CAT(scn_, __LINE__), QB, TB, false); \
  static void MC_CAT(scn_, __LINE__)(mc::Ctx &c)

int run(int argc, char **argv, const Property &p);

// bytes currently allocated (ASan allocator)
size_t heap_live();

// fill the unused stack below the caller with a byte pattern
void dirty_stack(unsigned char b, size_t n = 65536);

std::string read_file(const char *fn);
void write_file(const char *fn, const std::string &s);

inline bool close(double a, double b, double rel, double abs_ = 0) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  return std::fabs(a - b) <= rel * m + abs_;
}
} // namespace mc
