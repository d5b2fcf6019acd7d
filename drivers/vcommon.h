// Shared harness of the monitoring drivers: a deterministic case generator, the
// event log the runner (check.py) reads, and small helpers.
#ifndef VERIF_VCOMMON_H_
#define VERIF_VCOMMON_H_
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t Next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  // Uniform in [a, b].
  int64_t In(int64_t a, int64_t b) { return a + static_cast<int64_t>(Below(b - a + 1)); }
  bool Chance(int num, int den) { return Below(den) < static_cast<uint64_t>(num); }
  template <class V> auto &Pick(V &v) { return v[Below(v.size())]; }
  template <class T> T PickOf(std::initializer_list<T> v) { return *(v.begin() + Below(v.size())); }
  // Numbers of mixed magnitudes, up to 2^bits - 1.
  uint64_t Mag(int bits) {
    uint64_t b = Below(bits + 1);
    if (b == 0) return 0;
    return (Next() >> (64 - b));
  }
  template <class V> void Shuffle(V &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[Below(i)]);
  }
};

inline uint64_t Mix(uint64_t h, uint64_t v) {
  Rng r(h ^ (v * 0xff51afd7ed558ccdull));
  return r.Next();
}
inline uint64_t HashStr(std::string_view s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

inline std::string JsonEscape(std::string_view s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Ctx {
  Rng rng{0};
  uint64_t idx = 0;
  std::string tmp;
  bool thorough = false;
  int failures = 0;
  int log_fd = -1;
  int samples = 0;
  std::map<std::string, uint64_t> counters;
  void Write(const std::string &line) {
    std::string l = line + "\n";
    size_t off = 0;
    while (off < l.size()) {
      ssize_t n = write(log_fd, l.data() + off, l.size() - off);
      if (n <= 0) break;
      off += n;
    }
  }
  // A refutation of the property. `key` identifies what failed, independent of
  // the case that exposed it.
  void Fail(const std::string &key, const std::string &msg) {
    ++failures;
    if (failures > 8) return;
    Write("V {\"key\":\"" + JsonEscape(key) + "\",\"case\":" + std::to_string(idx) + ",\"msg\":\"" + JsonEscape(msg.substr(0, 3000)) + "\"}");
  }
  bool Check(bool ok, const std::string &key, const std::function<std::string()> &msg) {
    if (!ok) Fail(key, msg());
    return ok;
  }
  // This case was non-trivial; h identifies its behaviour for deduplication.
  void Nontrivial(uint64_t h) { nontrivial_.push_back(h); }
  void Sample(const std::function<std::string()> &text) {
    if (samples >= 3) return;
    ++samples;
    Write("S {\"case\":" + std::to_string(idx) + ",\"text\":\"" + JsonEscape(text().substr(0, 1500)) + "\"}");
  }
  void Count(const std::string &name, uint64_t n = 1) { counters[name] += n; }
  std::string Tmp(const std::string &name) const { return tmp + "/" + name; }
  std::vector<uint64_t> nontrivial_;
};

using PropFn = std::function<void(Ctx &)>;
inline std::map<std::string, PropFn> &Props() {
  static auto *m = new std::map<std::string, PropFn>;
  return *m;
}
struct Reg {
  Reg(const char *name, PropFn fn) { Props()[name] = std::move(fn); }
};
#define VPROP(name)                                    \
  static void VPropFn_##name(vh::Ctx &ctx);            \
  static vh::Reg vprop_reg_##name(#name, VPropFn_##name); \
  static void VPropFn_##name(vh::Ctx &ctx)

inline std::string ReadFile(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline bool WriteFile(const std::string &p, std::string_view c) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(c.data(), c.size());
  return static_cast<bool>(f);
}
inline bool FileExists(const std::string &p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0;
}

// Runs `fn` in a child process; returns the wait status. Used where the code
// under test is allowed to end the process (glog FATAL) but not to corrupt memory.
struct ChildResult {
  int status = 0;
  std::string out;  // What the child wrote through the pipe.
  std::string err;
  bool exited0() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; }
  // Ended through a glog fatal / CHECK rather than a sanitizer report or a signal of its own.
  bool clean_fatal() const {
    return (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT || WIFEXITED(status) && WEXITSTATUS(status) != 0) &&
           err.find("Sanitizer") == std::string::npos && err.find("runtime error:") == std::string::npos;
  }
};
inline ChildResult RunChild(Ctx &ctx, const std::function<std::string()> &fn) {
  ChildResult r;
  std::string ef = ctx.Tmp("child_err"), of = ctx.Tmp("child_out");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    alarm(120);
    std::string s = fn();
    WriteFile(of, s);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  r.status = st;
  r.err = ReadFile(ef);
  if (r.exited0()) r.out = ReadFile(of);
  unlink(ef.c_str());
  unlink(of.c_str());
  return r;
}

inline std::string Hex(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "0x%" PRIx64, v);
  return b;
}

// Directory with the upstream test data.
inline std::string TestData(const std::string &n) {
  const char *r = getenv("VERIF_TESTDATA");
  return std::string(r ? r : "/repo/testdata") + "/" + n;
}

}  // namespace vh

int main(int argc, char **argv) {
  std::map<std::string, std::string> o;
  for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto it = vh::Props().find(o["--prop"]);
  if (it == vh::Props().end()) {
    fprintf(stderr, "no such property in this driver\n");
    return 3;
  }
  vh::Ctx ctx;
  ctx.tmp = o["--tmp"];
  ctx.thorough = o["--tier"] == "thorough";
  ctx.log_fd = open(o["--log"].c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
  if (ctx.log_fd < 0) return 3;
  uint64_t seed = strtoull(o["--seed"].c_str(), nullptr, 0);
  uint64_t from = strtoull(o["--from"].c_str(), nullptr, 0), to = strtoull(o["--to"].c_str(), nullptr, 0);
  uint64_t step = std::max<uint64_t>(1, strtoull(o["--step"].c_str(), nullptr, 0));
  uint64_t ph = vh::HashStr(o["--prop"]);
  for (uint64_t i = from; i < to; i += step) {
    ctx.idx = i;
    ctx.rng = vh::Rng(vh::Mix(vh::Mix(seed, ph), i));
    ctx.failures = 0;
    ctx.nontrivial_.clear();
    ctx.Write("B " + std::to_string(i));
    it->second(ctx);
    std::string e = "E " + std::to_string(i);
    for (uint64_t h : ctx.nontrivial_) e += " " + vh::Hex(h).substr(2);
    ctx.Write(e);
    if (i % 64 == from % 64) fflush(nullptr);
  }
  for (auto &[k, v] : ctx.counters) ctx.Write("N " + k + " " + std::to_string(v));
  ctx.Write("D");
  fflush(nullptr);
  _exit(0);
}
#endif
