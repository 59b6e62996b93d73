// W01: downloads.  libcurl is replaced by a transport whose every decision
// (chunking, failure, response code) is the explorer's; storage faults are real
// ones (file-size and descriptor limits, directories, missing directories).
#include "mc.hpp"
#include "cweb.hpp"
#include <cerrno>
#include <csignal>
#include <curl/curl.h>
#include <dirent.h>
#include <map>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace {
struct Net {
  bool init_fails = false, failonerror = false; int code = 200;
  std::vector<int> chunks; int fail_after = -1; CURLcode fail_code = CURLE_OK;
  size_t (*wf)(char *, size_t, size_t, void *) = nullptr; void *wd = nullptr;
  std::string url, body; bool refused = false; int handles = 0; bool performed = false;
} net;
std::string pattern(int n, int off) { std::string s((size_t)n, 0); for (int i = 0; i < n; i++) s[i] = (char)('A' + (off + i) % 61 + ((off + i) / 61) % 7); return s; }
}
extern "C" {
#undef curl_easy_setopt
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL *curl_easy_init(void) { if (net.init_fails) return nullptr; ++net.handles; net.wf = nullptr; net.wd = nullptr; net.failonerror = false; return (CURL *)&net; }
void curl_easy_cleanup(CURL *h) { if (h) --net.handles; }
const char *curl_easy_strerror(CURLcode) { return "error"; }
CURLcode curl_easy_getinfo(CURL *, CURLINFO i, ...) { va_list a; va_start(a, i); if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long *) = net.code; va_end(a); return CURLE_OK; }
CURLcode curl_easy_setopt(CURL *h, CURLoption o, ...) {
  if (!h) return CURLE_BAD_FUNCTION_ARGUMENT;
  va_list a; va_start(a, o);
  if (o == CURLOPT_URL) net.url = va_arg(a, char *);
  else if (o == CURLOPT_WRITEFUNCTION) net.wf = va_arg(a, size_t (*)(char *, size_t, size_t, void *));
  else if (o == CURLOPT_WRITEDATA) net.wd = va_arg(a, void *);
  else if (o == CURLOPT_FAILONERROR) net.failonerror = va_arg(a, long) != 0;
  va_end(a); return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *h) {
  if (!h) return CURLE_BAD_FUNCTION_ARGUMENT;
  net.performed = true;
  if (net.code >= 400 && net.failonerror) return CURLE_HTTP_RETURNED_ERROR;
  for (size_t i = 0; i < net.chunks.size(); i++) {
    if ((int)i == net.fail_after) return net.fail_code;
    std::string b = pattern(net.chunks[i], (int)net.body.size());
    net.body += b;
    std::vector<char> copy(b.begin(), b.end()); // the buffer dies with the call
    size_t n = net.wf ? net.wf(copy.data(), 1, copy.size(), net.wd) : std::fwrite(copy.data(), 1, copy.size(), (FILE *)(net.wd ? net.wd : stdout));
    if (n != b.size()) { net.refused = true; return CURLE_WRITE_ERROR; }
  }
  if (net.fail_after == (int)net.chunks.size()) return net.fail_code;
  return CURLE_OK;
}
}
namespace {
std::map<std::string, std::string> snap(const std::string &d) {
  std::map<std::string, std::string> m;
  DIR *p = opendir(d.c_str());
  if (!p) return m;
  while (dirent *e = readdir(p)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    struct stat sb; lstat((d + "/" + n).c_str(), &sb);
    if (S_ISDIR(sb.st_mode)) { m[n + "/"] = ""; for (auto &k : snap(d + "/" + n)) m[n + "/" + k.first] = k.second; }
    else if (S_ISLNK(sb.st_mode)) { char b[512]; ssize_t k = readlink((d + "/" + n).c_str(), b, 511); m[n + "@"] = std::string(b, k > 0 ? k : 0); }
    else m[n] = mc::read_file((d + "/" + n).c_str());
  }
  closedir(p); return m;
}
void clean(const std::string &d) {
  DIR *p = opendir(d.c_str()); if (!p) return;
  std::vector<std::string> v; while (dirent *e = readdir(p)) v.push_back(e->d_name);
  closedir(p);
  for (auto &n : v) { if (n == "." || n == "..") continue; std::string f = d + "/" + n; if (unlink(f.c_str())) { clean(f); rmdir(f.c_str()); } }
}
enum { ABSENT, FILE_, EMPTYF, LONGF, DIR_, NOPARENT, LINK, DANGLING, NTARGET };
struct Lim {
  rlimit fs, nf;
  Lim(int fsize, bool nofd) {
    std::signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &fs); getrlimit(RLIMIT_NOFILE, &nf);
    rlimit x = fs; if (fsize >= 0) { x.rlim_cur = (rlim_t)fsize; setrlimit(RLIMIT_FSIZE, &x); }
    x = nf; if (nofd) { x.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &x); }
  }
  ~Lim() { setrlimit(RLIMIT_FSIZE, &fs); setrlimit(RLIMIT_NOFILE, &nf); }
};
void history(mc::Ctx &c, int calls) {
  std::string d = std::string(c.scratch()) + "/w";
  mkdir(d.c_str(), 0700); clean(d);
  int T = c.choose(NTARGET, "target");
  std::string f = d + "/local.bin";
  static const char *TN[] = {"absent", "file", "empty file", "longer file", "directory", "no such directory", "symbolic link", "dangling link"};
  c.note("target: %s", TN[T]);
  if (T == FILE_) mc::write_file(f.c_str(), "OLD CONTENT");
  if (T == EMPTYF) mc::write_file(f.c_str(), "");
  if (T == LONGF) mc::write_file(f.c_str(), pattern(20000, 7));
  if (T == DIR_) mkdir(f.c_str(), 0700);
  if (T == NOPARENT) f = d + "/none/local.bin";
  if (T == LINK) { mc::write_file((d + "/real").c_str(), "REAL"); if (symlink((d + "/real").c_str(), f.c_str())) c.skip(); }
  if (T == DANGLING) { if (symlink((d + "/nothing").c_str(), f.c_str())) c.skip(); }
  for (int k = 0; k < calls; k++) {
    net = Net();
    bool force = c.flip("force");
    net.init_fails = c.deviate(2, "init") == 1;
    net.code = c.deviate(2, "404") ? 404 : 200;
    static const int SZ[] = {1, 5000, 70000};
    int nch = c.choose(k ? 2 : 3, "chunks");
    for (int i = 0; i < nch; i++) net.chunks.push_back(SZ[c.choose(k ? 2 : 3, "size")]);
    int fa = c.deviate(nch + 2, "transfer fails");
    if (fa) { net.fail_after = fa - 1; static const CURLcode E[] = {CURLE_PARTIAL_FILE, CURLE_OPERATION_TIMEDOUT, CURLE_COULDNT_RESOLVE_HOST, CURLE_GOT_NOTHING}; net.fail_code = E[c.choose(4, "error")]; }
    static const int LIM[] = {-1, 0, 1, 4096, 5000, 70000, 74999};
    int lim = LIM[c.deviate(7, "file size limit")]; bool nofd = c.deviate(2, "no descriptor") == 1;
    auto before = snap(d);
    c.note("call: force=%d init_fails=%d code=%d chunks=%d fail_after=%d/%d limit=%d nofd=%d", force, net.init_fails, net.code, nch, net.fail_after, net.fail_code, lim, nofd);
    int total = 0; for (int x : net.chunks) total += x;
    int fds = -1; { fds = dup(0); ::close(fds); }
    int rc;
    { Lim l(lim, nofd); rc = dso::http_get("http://host/file", f.c_str(), force); }
    c.step();
    auto after = snap(d);
    c.state(mc::Hash().i(T).i(k).i(rc).i((int)after.size()).s(after.count("local.bin") ? std::to_string(after["local.bin"].size()).c_str() : "-").h);
    c.outcome(mc::Hash().i(rc).i(force).i(T).h);
    c.check(net.handles == 0, "%d transfer handles left open", net.handles);
    int fds2 = dup(0); ::close(fds2);
    c.check(fds2 == fds, "file descriptor leaked");
    struct stat sb; bool was_file = before.count("local.bin") || (before.count("local.bin@") && stat((before["local.bin@"]).c_str(), &sb) == 0);
    if (!force && was_file) {
      c.check(rc < 0, "existing file, no overwriting asked for: status %d", rc);
      c.check(!net.performed, "existing file, no overwriting asked for, but a transfer was made");
      c.check(after == before, "existing file touched although overwriting was not asked for");
      continue;
    }
    bool fault = net.init_fails || net.code != 200 || fa || nofd || (lim >= 0 && total > lim) || T == NOPARENT || before.count("local.bin/");
    c.check(rc >= 0, "negative status %d although a download was due", rc);
    if (!fault) c.check(rc == 0, "status %d for a faultless download", rc);
    if (rc == 0) {
      c.check(!fault, "success reported although the %s failed", net.init_fails ? "set-up" : net.code != 200 ? "request" : fa ? "transfer" : nofd ? "opening" : "storing");
      c.check(net.url == "http://host/file", "fetched %s", net.url.c_str());
      struct stat s2; c.check(stat(f.c_str(), &s2) == 0, "success but no file");
      std::string got = mc::read_file(f.c_str());
      c.check(got == net.body && (int)got.size() == total, "stored %d bytes of %d, or not those received", (int)got.size(), total);
      for (auto &b : before) if (b.first != "local.bin" && b.first != "local.bin@" && b.first != "real") c.check(after.count(b.first) && after[b.first] == b.second, "another file was touched: %s", b.first.c_str());
      for (auto &b : after) c.check(before.count(b.first) || b.first == "local.bin" || b.first == "nothing", "extra file left: %s", b.first.c_str());
    } else {
      for (auto &b : after) c.check(before.count(b.first), "failed (%d) but left %s behind", rc, b.first.c_str());
      c.check(after == before, "failed (%d) and destroyed or changed what was there", rc);
    }
  }
  clean(d);
}
MC_SCENARIO("one-download", 2, 4) { history(c, 1); }
MC_SCENARIO("two-downloads", 1, 2) { history(c, 2); }
} // namespace
MC_PROPERTY("W01", "fault_enumeration",
  "every combination of target kind (absent, file, empty, longer, directory, missing directory, link, dangling link), overwrite flag, chunking of the body, and at most the budgeted number of faults: set-up failure, HTTP 404, transfer failure before every chunk and at the end with four error codes, six file-size limits (so that writing or the final flush fails), no file descriptor; one call and pairs of calls; the directory is compared before and after",
  "up to 2 chunks of 1/5000/70000 bytes, 2 simultaneous faults for one call and 1 for two (quick) / 4 and 2 (thorough)",
  "libcurl is replaced by a stand-in with its documented interface; storage faults are real limits of the operating system")
