// C01: values of the configuration file.
#include "mc.hpp"
#include "var_utils.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
namespace {
enum Kind { ABSENT, SCALAR, NUL, LIST, MAP };
struct T { Kind k = ABSENT; std::string v; bool quoted = false; std::vector<std::pair<std::string, T>> m; };
T sc(const std::string &v, bool q = false) { T t; t.k = SCALAR; t.v = v; t.quoted = q; return t; }
T mk(Kind k) { T t; t.k = k; return t; }
const std::vector<std::string> VALS = {"4", "data/jpl/de405.bsp", "-17", "3.25", "-1e-3", "6.378136300e+06", "abc", "4x", "1.0D3", "true", "false", "2147483647", "2147483648", "-2147483648", "4294967296", "9.9.9", "a b", "a:b#c", "/", "3 .5", "e5", "-x", "5.", "Z"};
// style 0 block, 1 flow below the first level, 2 block with comments and blank lines, 3 block indented by four with document marks, 4 quoted keys, 5 CR LF
void emit(std::string &o, const T &t, int ind, int style) {
  const char *nl = style == 5 ? "\r\n" : "\n";
  if (t.k == MAP && style == 1 && ind) {
    o += " {"; bool first = true;
    for (auto &e : t.m) if (e.second.k != ABSENT) { if (!first) o += ", "; first = false; o += e.first + ":"; emit(o, e.second, 99, 1); }
    o += "}"; if (ind < 90) o += nl; return;
  }
  if (t.k == MAP) {
    if (ind) o += nl;
    bool any = false;
    for (auto &e : t.m) if (e.second.k != ABSENT) {
      any = true;
      if (style == 2) o += "# comment: 5\n\n";
      o += std::string(ind * (style == 3 ? 2 : 1), ' ') + (style == 4 ? "'" + e.first + "'" : e.first) + ":";
      emit(o, e.second, ind + 2, style);
    }
    if (!any) { o += std::string(ind ? ind + 4 : 0, ' ') + "{}" + nl; }
    return;
  }
  if (t.k == SCALAR) o += " " + (t.quoted ? "\"" + t.v + "\"" : t.v) + (style == 2 ? "   # was: 7" : "");
  if (t.k == LIST) o += " [1, 2]";
  if (t.k == NUL) o += ind < 90 ? "" : " null";
  if (ind < 90) o += nl;
}
const T *find(const T *t, const char *k) {
  if (!t || t->k != MAP) return nullptr;
  for (auto &e : t->m) if (e.first == k && e.second.k != ABSENT) return &e.second;
  return nullptr;
}
bool digits(const std::string &s, size_t i) { if (i >= s.size()) return false; for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
bool as_int(const std::string &s, long long &x) { if (!digits(s, s[0] == '-')) return false; x = std::atoll(s.c_str()); return x >= -2147483648LL && x <= 2147483647LL; }
bool as_dbl(const std::string &s, double &x) {
  if (s.empty() || s.find_first_not_of("0123456789+-.eE") != std::string::npos || s.find_first_of("0123456789") == std::string::npos) return false;
  char *e; x = std::strtod(s.c_str(), &e); return !*e;
}
struct Req { int form; std::vector<const char *> p; };
// every path of depth two and three, every value form
std::vector<Req> requests() {
  std::vector<Req> r;
  const char *K1[] = {"data", "data-2", "Data", ""}, *K2[] = {"file", "fil", "deep"}, *K3[] = {"x", "file", "xx"};
  for (int f = 0; f < 5; f++) for (auto a : K1) for (auto b : K2) { r.push_back({f, {a, b}}); for (auto d : K3) r.push_back({f, {a, b, d}}); }
  return r;
}
const char *FN[] = {"int", "double", "bool", "string", "text"};
// one look-up: status and value as text
template <class V> int ask(const YAML::Node &n, const Req &q, V &v) { return q.p.size() == 2 ? dso::get_yaml_value_depth2<V>(n, q.p[0], q.p[1], v) : dso::get_yaml_value_depth3<V>(n, q.p[0], q.p[1], q.p[2], v); }
void judge(mc::Ctx &c, const YAML::Node &root, const T &t, const Req &q) {
  const T *x = &t;
  for (auto k : q.p) x = find(x, k);
  bool scalar = x && x->k == SCALAR;
  std::string path = q.p[0]; for (size_t i = 1; i < q.p.size(); i++) path += std::string("::") + q.p[i];
  int rc = -99; bool threw = false;
  long long ei = 0; double ed = 0; bool good = false;
  c.step();
  try {
    if (q.form == 0) { int v = -555; rc = ask(root, q, v); good = scalar && as_int(x->v, ei); if (!rc && good) c.check(v == ei, "%s read as %d", path.c_str(), v); }
    if (q.form == 1) { double v = -555; rc = ask(root, q, v); good = scalar && as_dbl(x->v, ed); if (!rc && good) c.check(v == ed, "%s read as %.17g", path.c_str(), v); }
    if (q.form == 2) { bool v = false; rc = ask(root, q, v); good = scalar && (x->v == "true" || x->v == "false"); if (!rc && good) c.check(v == (x->v == "true"), "%s read as %d", path.c_str(), v); }
    if (q.form == 3) { std::string v = "?"; rc = ask(root, q, v); good = scalar; if (!rc && good) c.check(v == x->v, "%s read as '%s'", path.c_str(), v.c_str()); }
    if (q.form == 4) {
      size_t n = scalar ? x->v.size() + 1 : 256;
      std::unique_ptr<char[]> b(new char[n]); std::memset(b.get(), 'Q', n);
      rc = q.p.size() == 2 ? dso::get_yaml_value_depth2(root, q.p[0], q.p[1], b.get()) : dso::get_yaml_value_depth3(root, q.p[0], q.p[1], q.p[2], b.get());
      good = scalar; if (!rc && good) c.check(!std::memcmp(b.get(), x->v.c_str(), n), "%s read as '%.*s'", path.c_str(), (int)n, b.get());
    }
  } catch (...) { threw = true; }
  c.check(!threw, "%s as %s throws", path.c_str(), FN[q.form]);
  c.outcome(mc::Hash().i(rc).i(q.form).i(good).h);
  if (x && x->k == NUL && q.form >= 3) return; // an empty value as text: not settled
  c.check((rc == 0) == good, "%s as %s: status %d, the file %s", path.c_str(), FN[q.form], rc, good ? "states it" : x ? "holds something else there" : "has no such entry");
}
T doc() {
  T deep = mk(MAP); deep.m = {{"x", sc("3")}, {"file", sc("31")}};
  T data = mk(MAP); data.m = {{"file", sc("4")}, {"deep", deep}};
  T d2 = mk(MAP); d2.m = {{"file", sc("deep.dat")}, {"fil", sc("5.5")}, {"deep", deep}};
  T root = mk(MAP); root.m = {{"data", data}, {"data-2", d2}};
  return root;
}
// bounded changes of one entry
void vary(mc::Ctx &c, T &t, const std::string &name, bool atroot = false) {
  int n = 5 + (int)VALS.size() + 3, k = c.deviate(n + 1, "entry");
  if (k) {
    c.note("%s: form %d", name.c_str(), k);
    k--;
    if (k == 0) { t = mk(atroot ? NUL : ABSENT); return; }
    if (k == 1) { t = mk(NUL); return; }
    if (k == 2) { t = mk(LIST); return; }
    if (k == 3) { t = mk(MAP); return; }
    if (k == 4) { T u = mk(MAP); u.m = {{"file", sc("77")}, {"x", sc("78")}}; t = u; return; }
    k -= 5;
    if (k < (int)VALS.size()) { t = sc(VALS[k]); return; }
    k -= (int)VALS.size();
    t = k == 0 ? sc("", true) : k == 1 ? sc("12", true) : sc(std::string(255, 'p'));
    return;
  }
  if (t.k == MAP) for (auto &e : t.m) vary(c, e.second, name + "::" + e.first);
}
MC_SCENARIO("documents", 1, 2) {
  static const std::vector<Req> R = requests();
  T t = doc();
  vary(c, t, "root", true);
  int style = c.choose(6, "style"), order = c.choose(2, "order");
  if (order && t.k == MAP) { std::reverse(t.m.begin(), t.m.end()); for (auto &e : t.m) std::reverse(e.second.m.begin(), e.second.m.end()); }
  std::string o = style == 3 ? "---\n" : "";
  if (t.k == MAP) emit(o, t, 0, style); else { emit(o, t, 2, 0); }
  if (style == 3) o += "...\n";
  std::string fn = std::string(c.scratch()) + "/c.yaml";
  mc::write_file(fn.c_str(), o);
  mc::Hash h; h.s(o.c_str()); c.state(h.h);
  YAML::Node root;
  try { root = YAML::LoadFile(fn); } catch (std::exception &e) { c.fail("generator: %s\n%s", e.what(), o.c_str()); return; }
  for (auto &q : R) judge(c, root, t, q);
}
// every pair of look-ups on one loaded document: no look-up changes what another finds
MC_SCENARIO("histories", 0, 0) {
  static const std::vector<Req> R = requests();
  T t = doc();
  int k = c.choose(4, "document");
  if (k == 1) t.m[0].second.m[0].second = mk(ABSENT);
  if (k == 2) t.m[0].second = sc("6");
  if (k == 3) t.m[1].second = mk(NUL);
  std::string o; emit(o, t, 0, 0);
  std::string fn = std::string(c.scratch()) + "/c.yaml";
  mc::write_file(fn.c_str(), o);
  YAML::Node root = YAML::LoadFile(fn);
  const int depth = c.thorough() ? 2 : 1;
  for (int i = 0; i < depth; i++) { auto &q = R[c.choose((int)R.size(), "look-up")]; c.note("%s %zu keys", q.p[1], q.p.size()); judge(c, root, t, q); }
  std::vector<Req> S; for (auto &q : R) if (q.form == 3 || !c.thorough()) S.push_back(q);
  for (auto &q : S) judge(c, root, t, q);
  c.state(mc::Hash().i(k).h);
  c.check((int)root.size() == (int)std::count_if(t.m.begin(), t.m.end(), [](auto &e) { return e.second.k != ABSENT; }), "the document has %zu entries after the look-ups", root.size());
}
} // namespace
MC_PROPERTY("C01", "model_checking",
  "a two-section document of up to three levels with at most the budgeted number of entries replaced (absent, empty, list, empty or other map, 24 plain scalars, quoted scalars, a 255-character value), at every level including the root, in 6 layouts and 2 orders; every path of 2 and 3 keys over present, absent, prefix and empty keys in every value form; every history of look-ups of the stated length followed by all look-ups",
  "1 replaced entry, histories of 1 then all look-ups (quick) / 2 replaced entries, histories of 2 (thorough)",
  "the text buffer handed over holds the value and its terminator", "an entry without a value read as text is not judged", "duplicate keys and aliases are not covered", "YAML itself is parsed by the installed yaml-cpp library")
