#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <dirent.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1073741824:"
         "free_fill_byte=254:max_free_fill_size=1048576:"
         "allocator_may_return_null=0:abort_on_error=1:handle_abort=0:"
         "detect_stack_use_after_return=1:quarantine_size_mb=64:"
         "alloc_dealloc_mismatch=1:detect_odr_violation=0:disable_coredump=1";
}
extern "C" const char *__ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:abort_on_error=1";
}
#endif

namespace mc {

std::vector<Scenario> &registry() { static std::vector<Scenario> r; return r; }
Reg::Reg(const char *name, std::function<void(Ctx &)> fn, int qb, int tb, bool quick) {
  registry().push_back(Scenario{name, fn, qb, tb, quick});
}

size_t heap_live() {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

__attribute__((noinline)) void dirty_stack(unsigned char b, size_t n) {
  volatile unsigned char *p = (volatile unsigned char *)__builtin_alloca(n);
  for (size_t i = 0; i < n; i++) p[i] = b;
}

std::string read_file(const char *fn) {
  std::string s;
  FILE *f = std::fopen(fn, "rb");
  if (!f) return s;
  char b[4096]; size_t k;
  while ((k = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  std::fclose(f);
  return s;
}
void write_file(const char *fn, const std::string &s) {
  FILE *f = std::fopen(fn, "wb");
  if (!f) { perror(fn); std::_Exit(70); }
  if (s.size() && std::fwrite(s.data(), 1, s.size(), f) != s.size()) { perror(fn); std::_Exit(70); }
  if (std::fclose(f)) { perror(fn); std::_Exit(70); }
}

// ------------------------------------------------------------------ shared
struct Shm {
  volatile long heartbeat;      // executions started
  volatile int scenario;
  volatile int len;             // choices made so far in the current execution
  volatile int choice[Ctx::MAXC];
  volatile int ntrace;
  char trace[1 << 16];
  volatile int found;           // 1: check failed
  char msg[4096];
  char key[128];
};
static Shm *g_shm = nullptr;

void Ctx::begin() {
  depth = 0; spent = 0; nst = 0; nout = 0; transitions = 0; nevals = 0; ntrace = 0;
  trace[0] = 0; msg[0] = 0; key[0] = 0; prod = 1; decided = foreign = false; unwind = true;
  if (g_shm) { g_shm->len = 0; g_shm->ntrace = 0; g_shm->trace[0] = 0; g_shm->heartbeat = g_shm->heartbeat + 1; }
}

int Ctx::deviate_cost(int n, int c, const char *lab) {
  if (n <= 0) { std::fprintf(stderr, "mc: empty choice at %s\n", lab); std::_Exit(70); }
  if (foreign) return 0; // another shard's; see this one through and go on to the next prefix
  if (depth >= MAXC) { std::fprintf(stderr, "mc: too many choices\n"); std::_Exit(70); }
  if (c > 0 && spent + c > budget && !(replaying && depth < nprefix)) {
    // out of budget: only the default answer
    n = 1;
  }
  int a = 0;
  if (depth < nprefix) {
    a = choice[depth];
    if (a >= n) {
      if (replaying) a = 0;
      else { std::fprintf(stderr, "mc: divergence while replaying a prefix at %s (choice %d of %d)\n", lab, a, n); std::_Exit(71); }
    }
  }
  choice[depth] = a; arity[depth] = n; cost[depth] = c; label[depth] = lab;
  if (g_shm) { g_shm->choice[depth] = a; g_shm->len = depth + 1; }
  depth++;
  if (a && c) spent += c;
  // once enough branches lie behind, the prefix belongs to one shard
  if (nshards > 1 && !replaying && !decided) {
    prod *= n;
    if (prod >= SHARD_AT) { decided = true; if (!owns()) { foreign = true; if (unwind) throw Skip{}; } }
  }
  return a;
}
bool Ctx::owns() const {
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < depth; i++) { h ^= (uint64_t)choice[i] + 1; h *= 1099511628211ull; h ^= h >> 29; }
  h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  return (int)(h % (uint64_t)nshards) == shard;
}
int Ctx::choose(int n, const char *lab) { return deviate_cost(n, 0, lab); }
int Ctx::deviate(int n, const char *lab) { return deviate_cost(n, 1, lab); }

void Ctx::note(const char *fmt, ...) {
  if (ntrace > (int)sizeof(trace) - 2048) return;
  va_list ap; va_start(ap, fmt);
  int k = std::vsnprintf(trace + ntrace, 2000, fmt, ap);
  va_end(ap);
  if (k > 1999) k = 1999;
  if (k > 0) ntrace += k;
  trace[ntrace++] = ';'; trace[ntrace++] = ' '; trace[ntrace] = 0;
  if (g_shm) { std::memcpy(g_shm->trace, trace, ntrace + 1); g_shm->ntrace = ntrace; }
}
void Ctx::check(bool ok, const char *fmt, ...) {
  nevals++;
  if (ok) return;
  va_list ap; va_start(ap, fmt);
  std::vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  throw Fail{};
}
void Ctx::check_key(bool ok, const char *k, const char *fmt, ...) {
  nevals++;
  if (ok) return;
  std::snprintf(key, sizeof key, "%s", k);
  va_list ap; va_start(ap, fmt);
  std::vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  throw Fail{};
}
void Ctx::fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  std::vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  throw Fail{};
}

// ------------------------------------------------------------------ results
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Stats {
  long execs{0}, transitions{0}, evals{0}, skipped{0};
  int capped{0};
};

struct Opt {
  bool thorough{false};
  std::string evidence, replay_dir, known_file, replay;
  long seed{1};
  int workers{8};
  double deadline_s{600};
  std::string only;
  int max_exec_report{0};
};

static std::string json_str(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

static std::set<std::string> load_known(const std::string &fn, const char *id) {
  // lines: KNOWN-FINDING property=<id> key=<key> <text>
  std::set<std::string> r;
  std::string s = read_file(fn.c_str());
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size();
    std::string l = s.substr(i, j - i); i = j + 1;
    std::string pre = std::string("KNOWN-FINDING: property=") + id + " key=";
    if (l.compare(0, pre.size(), pre) == 0) {
      size_t e = l.find(' ', pre.size());
      r.insert(l.substr(pre.size(), e == std::string::npos ? e : e - pre.size()));
    }
  }
  return r;
}
static std::string known_text(const std::string &fn, const char *id, const std::string &key) {
  std::string s = read_file(fn.c_str());
  std::string pre = std::string("KNOWN-FINDING: property=") + id + " key=" + key;
  size_t a = s.find(pre);
  if (a == std::string::npos) return key;
  size_t e = s.find('\n', a);
  return s.substr(a + pre.size(), e == std::string::npos ? e : e - a - pre.size());
}

static void rm_rf(const std::string &d) {
  if (d.compare(0, 12, "/dev/shm/mc.") && d.compare(0, 8, "/tmp/mc.")) return; // only our own scratch
  DIR *D = opendir(d.c_str());
  if (D) {
    while (struct dirent *e = readdir(D)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string f = d + "/" + n;
      struct stat sb;
      if (!lstat(f.c_str(), &sb) && S_ISDIR(sb.st_mode)) rm_rf(f);
      else unlink(f.c_str());
    }
    closedir(D);
  }
  rmdir(d.c_str());
}

// one execution; 0 ok, 1 failed, 2 skipped
static int exec_once(Ctx &c, const Scenario &s) {
  c.begin();
  try { s.fn(c); }
  catch (Fail &) { return 1; }
  catch (Skip &) { return 2; }
  return 0;
}

static void redirect(const std::string &f) {
  int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  dup2(fd, 1); dup2(fd, 2); ::close(fd);
  static char obuf[8192]; std::setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
}
static void trim_log() {
  struct stat sb;
  if (!fstat(2, &sb) && sb.st_size > (1 << 20)) { fflush(stdout); if (ftruncate(2, 0)) {} }
}

struct WorkerOut { // written by a worker on normal completion
  Stats s;
  std::vector<uint64_t> states, outs;
  std::vector<std::string> samples;
  std::map<std::string, long> known; // key -> count
  std::map<std::string, std::string> known_sample;
};

static void save(const std::string &fn, const WorkerOut &w) {
  FILE *f = fopen(fn.c_str(), "wb");
  fwrite(&w.s, sizeof w.s, 1, f);
  auto vec = [&](const std::vector<uint64_t> &v) { size_t n = v.size(); fwrite(&n, sizeof n, 1, f); if (n) fwrite(v.data(), 8, n, f); };
  auto str = [&](const std::string &s) { size_t n = s.size(); fwrite(&n, sizeof n, 1, f); if (n) fwrite(s.data(), 1, n, f); };
  vec(w.states); vec(w.outs);
  size_t n = w.samples.size(); fwrite(&n, sizeof n, 1, f);
  for (auto &s : w.samples) str(s);
  n = w.known.size(); fwrite(&n, sizeof n, 1, f);
  for (auto &k : w.known) { str(k.first); fwrite(&k.second, sizeof(long), 1, f); str(w.known_sample.at(k.first)); }
  fclose(f);
}
static bool load(const std::string &fn, WorkerOut &w) {
  FILE *f = fopen(fn.c_str(), "rb"); if (!f) return false;
  bool ok = fread(&w.s, sizeof w.s, 1, f) == 1;
  auto num = [&]() { size_t n = 0; ok = ok && fread(&n, sizeof n, 1, f) == 1; return ok ? n : 0; };
  auto vec = [&](std::vector<uint64_t> &v) { size_t n = num(); v.resize(n); if (n) ok = ok && fread(v.data(), 8, n, f) == n; };
  auto str = [&](std::string &s) { size_t n = num(); s.resize(n); if (n) ok = ok && fread(&s[0], 1, n, f) == n; };
  vec(w.states); vec(w.outs);
  size_t n = num(); w.samples.resize(n); for (auto &s : w.samples) str(s);
  n = num();
  for (size_t i = 0; i < n && ok; i++) { std::string k, sm; long c = 0; str(k); ok = ok && fread(&c, sizeof c, 1, f) == 1; str(sm); w.known[k] = c; w.known_sample[k] = sm; }
  fclose(f);
  return ok;
}

// explore one scenario's shard
static void worker(const Property &P, int si, int shard, int nshards, const Opt &o, const std::string &dir,
                   const std::set<std::string> &known, double tend) {
  static Ctx c;
  c.st = (uint64_t *)std::malloc(8 * Ctx::MAXS);
  c.out = (uint64_t *)std::malloc(8 * Ctx::MAXS);
  static std::string sd = dir + "/f" + std::to_string(si) + "_" + std::to_string(shard);
  mkdir(sd.c_str(), 0700);
  c.scratch_dir = sd.c_str();
  c.thorough_ = o.thorough; c.worker_ = shard;
  const Scenario &S = P.scenarios[si];
  c.budget = o.thorough ? S.thorough_budget : S.quick_budget;
  c.shard = shard; c.nshards = nshards;
  WorkerOut w;
  std::unordered_set<uint64_t> states, outs;
  c.nprefix = 0;
  g_shm->scenario = si;
  long n = 0;
  while (true) {
    int r = exec_once(c, S);
    trim_log();
    bool mine = nshards == 1 || (c.decided ? !c.foreign : c.owns());
    if (r == 1) {
      std::string k = c.key;
      if (!k.empty() && known.count(k)) {
        if (mine) { w.known[k]++; if (!w.known_sample.count(k)) w.known_sample[k] = std::string(c.trace) + " => " + c.msg; w.s.execs++; }
      } else {
        g_shm->found = 1;
        std::snprintf(g_shm->msg, sizeof g_shm->msg, "%s", c.msg);
        std::snprintf(g_shm->key, sizeof g_shm->key, "%s", c.key);
        std::_Exit(42);
      }
    } else if (r == 0 && mine) {
      w.s.execs++; w.s.transitions += c.transitions; w.s.evals += c.nevals;
      for (int i = 0; i < c.nst; i++) if (states.size() < 8000000) states.insert(c.st[i]);
      for (int i = 0; i < c.nout; i++) if (outs.size() < 8000000) outs.insert(c.out[i]);
      if (w.samples.size() < 2 || ((n & (n - 1)) == 0 && w.samples.size() < 12)) {
        std::string t = std::string(S.name) + ": " + c.trace;
        if (t.size() > 900) t = t.substr(0, 900) + "...";
        w.samples.push_back(t);
      }
    } else if (r == 2 && mine) w.s.skipped++;
    n++;
    // next choice sequence
    int d = c.depth - 1;
    // budget recomputation: spent before position d
    while (d >= 0) {
      if (c.choice[d] + 1 < c.arity[d]) {
        if (c.cost[d] && c.choice[d] == 0) {
          int sp = 0; for (int i = 0; i < d; i++) if (c.choice[i] && c.cost[i]) sp += c.cost[i];
          if (sp + c.cost[d] > c.budget) { d--; continue; }
        }
        c.choice[d]++;
        break;
      }
      d--;
    }
    if (d < 0) break;
    c.nprefix = d + 1;
    if (now() > tend) { w.s.capped = 1; break; }
  }
  w.states.assign(states.begin(), states.end());
  w.outs.assign(outs.begin(), outs.end());
  save(dir + "/out" + std::to_string(si) + "_" + std::to_string(shard), w);
  fflush(stdout);
  rm_rf(sd);
  std::_Exit(0);
}

// run one given choice sequence in a fresh process; returns 0 ok, 1 violated, 3 hang; fills text
static int replay_one(const Property &P, int si, const std::vector<int> &ch, const Opt &o, const std::string &dir,
                      std::string &what, std::string &trace, std::string &key, std::vector<int> *made, double limit) {
  std::memset((void *)g_shm, 0, sizeof *g_shm);
  std::string log = dir + "/replay.log";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    redirect(log);
    static Ctx c;
    c.st = (uint64_t *)std::malloc(8 * Ctx::MAXS);
    c.out = (uint64_t *)std::malloc(8 * Ctx::MAXS);
    static std::string sd = dir + "/freplay"; mkdir(sd.c_str(), 0700);
    c.scratch_dir = sd.c_str(); c.thorough_ = o.thorough;
    c.replaying = true; c.budget = 1 << 30;
    c.nprefix = (int)ch.size();
    for (size_t i = 0; i < ch.size(); i++) c.choice[i] = ch[i];
    // beyond the prefix: default answers
    c.nshards = 1;
    int r = exec_once(c, P.scenarios[si]);
    if (r == 1) { g_shm->found = 1; std::snprintf(g_shm->msg, sizeof g_shm->msg, "%s", c.msg); std::snprintf(g_shm->key, sizeof g_shm->key, "%s", c.key); }
    rm_rf(sd);
    std::_Exit(r == 1 ? 42 : 0);
  }
  double t0 = now(); int st = 0; bool hang = false;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (now() - t0 > limit) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
    usleep(2000);
  }
  trace = g_shm->trace; key = g_shm->key;
  if (made) { made->clear(); for (int i = 0; i < g_shm->len; i++) made->push_back((int)g_shm->choice[i]); }
  if (hang) { what = "does not terminate"; return 3; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { what = g_shm->msg; return 1; }
  std::string l = read_file(log.c_str());
  // the most telling line
  std::string best;
  for (const char *pat : {"ERROR: AddressSanitizer", "runtime error", "Assertion", "terminate called", "what()", "mc:"}) {
    size_t a = l.find(pat);
    if (a != std::string::npos) { size_t b = l.rfind('\n', a); b = b == std::string::npos ? 0 : b + 1; size_t e = l.find('\n', a); best = l.substr(b, (e == std::string::npos ? l.size() : e) - b); break; }
  }
  char b[200];
  if (WIFSIGNALED(st)) std::snprintf(b, sizeof b, "crash (signal %d): ", WTERMSIG(st));
  else std::snprintf(b, sizeof b, "abnormal exit %d: ", WEXITSTATUS(st));
  what = b + best;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)) return 4; // machinery
  return 1;
}

int run(int argc, char **argv, const Property &P) {
  Opt o;
  o.replay_dir = "."; 
  if (const char *w = getenv("VERIF_SEED")) o.seed = atol(w);
  long nc = sysconf(_SC_NPROCESSORS_ONLN);
  o.workers = (int)std::max(2l, std::min(nc, 16l));
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") o.thorough = nx() == "thorough";
    else if (a == "--evidence") o.evidence = nx();
    else if (a == "--replays") o.replay_dir = nx();
    else if (a == "--known") o.known_file = nx();
    else if (a == "--workers") o.workers = atoi(argv[++i]);
    else if (a == "--deadline") o.deadline_s = atof(argv[++i]);
    else if (a == "--scenario") o.only = nx();
    else if (a == "--replay") o.replay = nx();
  }
  double t0 = now();
  g_shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shm *base_shm = g_shm;
  char tmpl[] = "/dev/shm/mc.XXXXXX", tmpl2[] = "/tmp/mc.XXXXXX";
  const char *d = mkdtemp(tmpl); if (!d) d = mkdtemp(tmpl2);
  if (!d) { perror("mkdtemp"); return 2; }
  std::string dir = d;
  std::set<std::string> known = load_known(o.known_file, P.id);

  if (!o.replay.empty()) {
    // file: lines "scenario <name>", "choices a b c ..."
    std::string s = read_file(o.replay.c_str());
    size_t a = s.find("scenario "), b = s.find("choices");
    if (a == std::string::npos || b == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
    std::string nm = s.substr(a + 9, s.find('\n', a) - a - 9);
    std::vector<int> ch;
    const char *q = s.c_str() + b + 7; char *e;
    while (true) { while (*q == ' ') q++; if (*q == '\n' || !*q) break; long v = strtol(q, &e, 10); if (e == q) break; ch.push_back((int)v); q = e; }
    for (size_t si = 0; si < P.scenarios.size(); si++) if (nm == P.scenarios[si].name) {
      std::string what, trace, key;
      int r = replay_one(P, (int)si, ch, o, dir, what, trace, key, nullptr, 180);
      printf("trace: %s\nresult: %s\n", trace.c_str(), r ? what.c_str() : "ok");
      std::string l = read_file((dir + "/replay.log").c_str());
      printf("--- output of the run (tail)\n%s\n", l.size() > 6000 ? l.substr(l.size() - 6000).c_str() : l.c_str());
      rm_rf(dir);
      return r ? 1 : 0;
    }
    fprintf(stderr, "unknown scenario %s\n", nm.c_str());
    rm_rf(dir);
    return 2;
  }

  struct Slot { pid_t pid{0}; int si{0}, sh{0}, n{1}; Shm *shm{nullptr}; long hb{-1}; double hbt{0}; };
  std::vector<Slot> slots(o.workers);
  for (auto &s : slots) s.shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Job { int si, sh, n; };
  std::vector<Job> jobs;
  for (size_t i = 0; i < P.scenarios.size(); i++) {
    if (!o.only.empty() && o.only != P.scenarios[i].name) continue;
    if (!o.thorough && !P.scenarios[i].quick) continue;
    const int ns = o.workers > 1 ? 4 * o.workers : 1;
    for (int k = 0; k < ns; k++) jobs.push_back({(int)i, k, ns});
  }
  size_t next = 0; int running = 0;
  struct Viol { int si, sh, n; std::vector<int> ch; std::string what, trace; };
  std::vector<Viol> viols; int machinery = 0;
  double tend = t0 + o.deadline_s;
  bool stop = false;
  fflush(stdout); fflush(stderr);
  while (running || (next < jobs.size() && !stop)) {
    for (auto &s : slots) {
      if (!s.pid && next < jobs.size() && !stop) {
        Job j = jobs[next++];
        std::memset((void *)s.shm, 0, sizeof *s.shm);
        pid_t pid = fork();
        if (pid == 0) {
          setpgid(0, 0);
          g_shm = s.shm;
          redirect(dir + "/log" + std::to_string(&s - &slots[0]));
          worker(P, j.si, j.sh, j.n, o, dir, known, tend);
        }
        s.pid = pid; s.si = j.si; s.sh = j.sh; s.n = j.n; s.hb = -1; s.hbt = now(); running++;
      }
      if (!s.pid) continue;
      int st = 0;
      pid_t r = waitpid(s.pid, &st, WNOHANG);
      bool hang = false;
      if (r == 0) {
        if (s.shm->heartbeat != s.hb) { s.hb = s.shm->heartbeat; s.hbt = now(); continue; }
        else if (now() - s.hbt > P.hang_s) { kill(-s.pid, SIGKILL); kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); hang = true; }
        else continue;
      }
      s.pid = 0; running--;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      Viol v; v.si = s.si; v.sh = s.sh; v.n = s.n;
      for (int i = 0; i < s.shm->len; i++) v.ch.push_back((int)s.shm->choice[i]);
      v.what = hang ? "hang" : "failed"; v.trace = s.shm->trace;
      viols.push_back(v); stop = true;
      if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)) { machinery = 1;
        fprintf(stderr, "machinery: %s\n", read_file((dir + "/log" + std::to_string(&s - &slots[0])).c_str()).c_str()); }
    }
    if (stop) { // let the others go: one counterexample is enough
      for (auto &s : slots) if (s.pid) { kill(-s.pid, SIGKILL); kill(s.pid, SIGKILL); int st; waitpid(s.pid, &st, 0); s.pid = 0; running--; }
      break;
    }
    usleep(3000);
  }
  g_shm = base_shm;

  // merge
  Stats tot; std::unordered_set<uint64_t> states, outs; std::vector<std::string> samples;
  std::map<std::string, long> kc; std::map<std::string, std::string> ks; std::map<int, Stats> per;
  for (auto &j : jobs) {
    WorkerOut w;
    if (!load(dir + "/out" + std::to_string(j.si) + "_" + std::to_string(j.sh), w)) { if (viols.empty()) { fprintf(stderr, "machinery: no result from scenario %s shard %d\n", P.scenarios[j.si].name, j.sh); machinery = 3; } continue; }
    tot.execs += w.s.execs; tot.transitions += w.s.transitions; tot.evals += w.s.evals; tot.skipped += w.s.skipped; tot.capped |= w.s.capped;
    per[j.si].execs += w.s.execs; per[j.si].transitions += w.s.transitions; per[j.si].evals += w.s.evals; per[j.si].capped |= w.s.capped;
    states.insert(w.states.begin(), w.states.end());
    outs.insert(w.outs.begin(), w.outs.end());
    if (j.sh == 0 || j.sh == j.n / 2) for (size_t i = 0; i < w.samples.size() && samples.size() < 24 && i < 4; i++) samples.push_back(w.samples[i]);
    for (auto &k : w.known) { kc[k.first] += k.second; ks[k.first] = w.known_sample[k.first]; }
  }

  // confirm
  int nviol = 0; std::string vpath, vwhat, vtrace;
  if (!viols.empty() && !machinery) {
    Viol &v = viols[0];
    std::string what, trace, key; std::vector<int> made;
    double lim = P.hang_s * 3;
    int r1 = replay_one(P, v.si, v.ch, o, dir, what, trace, key, &made, lim);
    std::string what1 = what;
    int r2 = r1 ? replay_one(P, v.si, v.ch, o, dir, what, trace, key, &made, lim) : 0;
    if (r1 == 1 || r1 == 3) {
      if (r2 != r1) { fprintf(stderr, "note: second replay gave %d (first %d)\n", r2, r1); }
      // shrink: try to reset choices to their default, and cut the tail
      std::vector<int> best = made.empty() ? v.ch : made;
      if (r1 == 1) {
        double ts = now(); int tries = 0;
        for (size_t i = best.size(); i-- > 0 && now() - ts < 20 && tries < 400;) {
          if (!best[i]) continue;
          std::vector<int> c2 = best; c2[i] = 0; tries++;
          std::string w2, t2, k2; std::vector<int> m2;
          if (replay_one(P, v.si, c2, o, dir, w2, t2, k2, &m2, P.hang_s) == 1 && !(known.count(k2) && !k2.empty())) { best = m2; what = w2; trace = t2; }
        }
        // final run of the minimal sequence
        std::vector<int> m3; std::string k3;
        replay_one(P, v.si, best, o, dir, what, trace, k3, &m3, lim);
      }
      nviol = 1;
      mkdir(o.replay_dir.c_str(), 0755);
      vpath = o.replay_dir + "/" + P.id + "-" + P.scenarios[v.si].name + ".replay";
      std::string txt = std::string("property ") + P.id + "\nscenario " + P.scenarios[v.si].name + "\nchoices";
      for (int x : best) txt += " " + std::to_string(x);
      txt += "\ntier " + std::string(o.thorough ? "thorough" : "quick") + "\ntrace " + trace + "\nresult " + what + "\n";
      write_file(vpath.c_str(), txt);
      vwhat = what; vtrace = trace;
      printf("scenario %s\n  trace: %s\n  %s\n", P.scenarios[v.si].name, trace.c_str(), what.c_str());
    } else if (r1 == 4) {
      machinery = 1; fprintf(stderr, "machinery error: %s\n", what.c_str());
    } else {
      // not reproducible alone: the code carries state from one execution to
      // the next within a process.  The shard's whole exploration is
      // deterministic, so run it again from its start: if it fails at the same
      // choice sequence the dependence on history is the violation.
      std::memset((void *)g_shm, 0, sizeof *g_shm);
      std::string log = dir + "/rerun.log";
      fflush(stdout); fflush(stderr);
      pid_t pid = fork();
      if (pid == 0) { setpgid(0, 0); redirect(log); worker(P, v.si, v.sh, v.n, o, dir, known, now() + o.deadline_s); }
      int st = 0; bool hang = false; long hb = -1; double hbt = now();
      while (waitpid(pid, &st, WNOHANG) == 0) {
        if (g_shm->heartbeat != hb) { hb = g_shm->heartbeat; hbt = now(); }
        else if (now() - hbt > P.hang_s * 3) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
        usleep(3000);
      }
      std::vector<int> again; for (int i = 0; i < g_shm->len; i++) again.push_back((int)g_shm->choice[i]);
      if ((hang || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) && again == v.ch) {
        nviol = 1;
        std::string l = g_shm->found ? std::string(g_shm->msg) : read_file(log.c_str());
        if (l.size() > 3000) l = l.substr(l.size() - 3000);
        mkdir(o.replay_dir.c_str(), 0755);
        vpath = o.replay_dir + "/" + P.id + "-" + P.scenarios[v.si].name + ".replay";
        std::string txt = std::string("property ") + P.id + "\nscenario " + P.scenarios[v.si].name + "\nshard " + std::to_string(v.sh) + " of " + std::to_string(v.n) + "\nchoices";
        for (int x : v.ch) txt += " " + std::to_string(x);
        txt += "\ntier " + std::string(o.thorough ? "thorough" : "quick") + "\ntrace " + std::string(g_shm->trace) + "\nresult (only after the earlier executions of this shard in the same process) " + l + "\n";
        write_file(vpath.c_str(), txt);
        printf("scenario %s (depends on earlier executions in the process)\n  trace: %s\n  %s\n", P.scenarios[v.si].name, g_shm->trace, l.c_str());
      } else {
        fprintf(stderr, "unconfirmed: scenario %s trace %s : %s\n", P.scenarios[v.si].name, v.trace.c_str(), v.what.c_str());
        machinery = 2;
      }
    }
  }

  double wall = now() - t0;
  // evidence
  if (!o.evidence.empty()) {
    std::string j = "{\n \"property\": " + json_str(P.id) + ",\n \"tier\": \"" + (o.thorough ? "thorough" : "quick") + "\",\n \"seed\": " + std::to_string(o.seed) +
                    ",\n \"level\": " + json_str(P.level) + ",\n \"coverage\": {\n";
    std::string lv = P.level;
    if (lv == "model_checking")
      j += "  \"states\": " + std::to_string(states.size()) + ",\n  \"transitions\": " + std::to_string(tot.transitions) + ",\n  \"traces_validated_against_impl\": " + std::to_string(tot.execs) + ",\n";
    else
      j += "  \"evaluations\": " + std::to_string(tot.execs) + ",\n  \"distinct_nontrivial\": " + std::to_string(states.size()) + ",\n  \"steps\": " + std::to_string(tot.transitions) + ",\n";
    j += "  \"oracle_comparisons\": " + std::to_string(tot.evals) + ",\n  \"distinct_outcomes\": " + std::to_string(outs.size()) +
         ",\n  \"rule\": " + json_str(P.rule) + ",\n  \"bound\": " + json_str(P.bound) + ",\n  \"exhaustive\": " + ((tot.capped || nviol || machinery) ? "false" : "true") + ",\n  \"scenarios\": {";
    bool first = true;
    for (auto &p : per) { j += std::string(first ? "" : ", ") + json_str(P.scenarios[p.first].name) + ": {\"executions\": " + std::to_string(p.second.execs) + ", \"steps\": " + std::to_string(p.second.transitions) +
        ", \"deviation_budget\": " + std::to_string(o.thorough ? P.scenarios[p.first].thorough_budget : P.scenarios[p.first].quick_budget) + ", \"completed\": " + (p.second.capped ? "false" : "true") + "}"; first = false; }
    j += "},\n  \"samples\": [";
    first = true;
    for (auto &s : samples) { j += std::string(first ? "\n   " : ",\n   ") + json_str(s); first = false; }
    j += "]\n },\n \"assumptions\": [";
    first = true;
    for (auto a : P.assumptions) { j += std::string(first ? "" : ", ") + json_str(a); first = false; }
    char wb[64]; std::snprintf(wb, sizeof wb, "%.2f", wall);
    j += std::string("],\n \"wall_s\": ") + wb + ",\n \"violations\": " + std::to_string(nviol) + "\n}\n";
    write_file(o.evidence.c_str(), j);
  }
  rm_rf(dir);
  printf("%s: executions=%ld states=%zu transitions=%ld comparisons=%ld outcomes=%zu skipped=%ld wall=%.1fs%s\n", P.id, tot.execs, states.size(), tot.transitions, tot.evals, outs.size(), tot.skipped, wall, tot.capped ? " (time cap hit)" : "");
  for (auto &p : per) printf("  %-28s executions=%ld steps=%ld comparisons=%ld%s\n", P.scenarios[p.first].name, p.second.execs, p.second.transitions, p.second.evals, p.second.capped ? " CAPPED" : "");
  for (auto &k : kc) printf("KNOWN-FINDING: property=%s %s:%s (%ld executions; e.g. %s)\n", P.id, k.first.c_str(), known_text(o.known_file, P.id, k.first).c_str(), k.second, ks[k.first].substr(0, 300).c_str());
  fflush(stdout);
  if (nviol) { printf("VIOLATION property=%s replay=%s\n", P.id, vpath.c_str()); return 1; }
  if (machinery) return 2;
  if (tot.execs == 0) { fprintf(stderr, "nothing explored\n"); return 2; }
  return 0;
}
} // namespace mc
