// Writes generated perf data in the form the stand-in of quipper reads (shim/include/quipper).
#ifndef VERIF_VPERF_H_
#define VERIF_VPERF_H_
#include "perf_data.pb.h"
#include "vcommon.h"

namespace vh {
inline std::string Unhex(const std::string &x) {
  std::string raw;
  for (size_t i = 0; i + 1 < x.size(); i += 2) raw += static_cast<char>(strtoul(x.substr(i, 2).c_str(), nullptr, 16));
  return raw;
}
inline std::string RandHex(Rng &r, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += "0123456789abcdef"[r.Below(16)];
  return s;
}
struct SpeRec {
  uint64_t ip = 0, target = 0, timestamp = 0, context = 0;
  bool retired = true, branch = true, cond = false, not_taken = false, el1 = true, el2 = false;
};
struct PerfData {
  quipper::PerfDataProto p;
  void Mmap(uint32_t pid, uint64_t start, uint64_t len, uint64_t pgoff, const std::string &name) {
    auto *e = p.add_events();
    e->mutable_header()->set_type(1);
    auto *m = e->mutable_mmap_event();
    m->set_pid(pid); m->set_tid(pid); m->set_start(start); m->set_len(len); m->set_pgoff(pgoff); m->set_filename(name);
  }
  void BuildId(const std::string &name, const std::string &hex) {
    auto *b = p.add_build_ids();
    b->set_build_id_hash(Unhex(hex));
    b->set_filename(name);
  }
  // Newest branch first, as perf records them.
  void Sample(uint32_t pid, uint64_t ip, const std::vector<std::pair<uint64_t, uint64_t>> &stack) {
    auto *e = p.add_events();
    e->mutable_header()->set_type(9);
    auto *x = e->mutable_sample_event();
    x->set_pid(pid); x->set_tid(pid); x->set_ip(ip);
    for (auto &[f, t] : stack) {
      auto *y = x->add_branch_stack();
      y->set_from_ip(f); y->set_to_ip(t);
    }
  }
  void Aux(const std::vector<SpeRec> &recs) {
    std::string d;
    for (auto &r : recs) {
      auto put = [&](uint64_t v) { d.append(reinterpret_cast<const char *>(&v), 8); };
      put(r.ip); put(r.target); put(r.timestamp); put(r.context);
      for (bool b : {r.retired, r.branch, r.cond, r.not_taken, r.el1, r.el2}) d += static_cast<char>(b);
      d += std::string(10, '\0');
    }
    auto *e = p.add_events();
    e->mutable_header()->set_type(71);
    e->mutable_auxtrace_event()->set_size(d.size());
    e->mutable_auxtrace_event()->set_trace_data(d);
  }
  std::string Str() const {
    std::string ser;
    p.SerializeToString(&ser);
    return "VPERFPB1" + ser;
  }
};
// Reads a text sample file.
inline bool ParseSampleText(const std::string &path, std::map<std::pair<uint64_t, uint64_t>, uint64_t> *ranges, std::map<uint64_t, uint64_t> *addrs,
                            std::map<std::pair<uint64_t, uint64_t>, uint64_t> *branches) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return false;
  bool ok = true;
  unsigned long n, a, b, c;
  ok = ok && fscanf(f, "%lu", &n) == 1;
  for (; ok && n; n--) if ((ok = fscanf(f, " %lx-%lx:%lu", &a, &b, &c) == 3)) (*ranges)[{a, b}] += c;
  ok = ok && fscanf(f, "%lu", &n) == 1;
  for (; ok && n; n--) if ((ok = fscanf(f, " %lx:%lu", &a, &c) == 2)) (*addrs)[a] += c;
  ok = ok && fscanf(f, "%lu", &n) == 1;
  for (; ok && n; n--) if ((ok = fscanf(f, " %lx->%lx:%lu", &a, &b, &c) == 3)) (*branches)[{a, b}] += c;
  fclose(f);
  return ok;
}
}  // namespace vh
#endif
