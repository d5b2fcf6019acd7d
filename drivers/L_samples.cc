// link: core
// Text sample files (C01) and perf.data samples (C02).
#include <regex>
#include "absl_shim.h"
#include "profile_creator.h"
#include "sample_reader.h"
#include "vcommon.h"
#include "velf.h"
#include "vperf.h"

ABSL_DECLARE_FLAG(uint64_t, strip_dup_backedge_stride_limit);
ABSL_DECLARE_FLAG(std::string, focus_binary_re);
using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
struct Model {
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> ranges, branches;
  std::map<uint64_t, uint64_t> addrs;
  void Add(const Model &o) {
    for (auto &[k, v] : o.ranges) ranges[k] += v;
    for (auto &[k, v] : o.branches) branches[k] += v;
    for (auto &[k, v] : o.addrs) addrs[k] += v;
  }
  uint64_t Total() const {
    uint64_t t = 0;
    if (!ranges.empty()) for (auto &[k, v] : ranges) t += v * (1 + k.second - k.first);
    else for (auto &[k, v] : addrs) t += v;
    return t;
  }
  uint64_t SampleCount() const {
    uint64_t t = 0;
    if (!ranges.empty()) for (auto &[k, v] : ranges) t += v;
    else for (auto &[k, v] : addrs) t += v;
    return t;
  }
  size_t Lines() const { return 3 + ranges.size() + addrs.size() + branches.size(); }
  uint64_t Hash() const {
    uint64_t h = 7;
    for (auto &[k, v] : ranges) h = Mix(Mix(Mix(h, k.first), k.second), v);
    h = Mix(h, 11);
    for (auto &[k, v] : addrs) h = Mix(Mix(h, k), v);
    h = Mix(h, 13);
    for (auto &[k, v] : branches) h = Mix(Mix(Mix(h, k.first), k.second), v);
    return h;
  }
  std::string Str() const {
    std::string s;
    for (auto &[k, v] : ranges) s += " " + Hex(k.first) + "-" + Hex(k.second) + ":" + std::to_string(v);
    s += " |";
    for (auto &[k, v] : addrs) s += " " + Hex(k) + ":" + std::to_string(v);
    s += " |";
    for (auto &[k, v] : branches) s += " " + Hex(k.first) + "->" + Hex(k.second) + ":" + std::to_string(v);
    return s;
  }
};
void Compare(Ctx &ctx, const Model &want, const afdo::SampleReader &got, const std::string &what) {
  Model g;
  g.ranges = got.range_count_map();
  g.addrs = got.address_count_map();
  g.branches = got.branch_count_map();
  auto msg = [&] { return "want" + want.Str() + "\n got" + g.Str(); };
  ctx.Check(want.ranges == g.ranges, what + ": range counts", msg);
  ctx.Check(want.addrs == g.addrs, what + ": address counts", msg);
  ctx.Check(want.branches == g.branches, what + ": branch counts", msg);
  std::set<uint64_t> sampled;
  if (!want.ranges.empty()) for (auto &[k, v] : want.ranges) sampled.insert(k.first);
  else for (auto &[k, v] : want.addrs) sampled.insert(k);
  ctx.Check(got.GetSampledAddresses() == sampled, what + ": sampled addresses", msg);
  ctx.Check(got.GetTotalSampleCount() == want.SampleCount(), what + ": total sample count", [&] { return std::to_string(got.GetTotalSampleCount()) + " instead of " + std::to_string(want.SampleCount()); });
  for (auto &[k, v] : want.addrs) {
    ctx.Check(got.GetSampleCountOrZero(k) == v, what + ": count of an address", msg);
    if (!want.addrs.count(k + 1)) ctx.Check(got.GetSampleCountOrZero(k + 1) == 0, what + ": count of an unsampled address", msg);
  }
}

// The documented text format, read independently. Returns false when malformed.
bool ParseText(const std::string &s, Model *m, std::string *rest) {
  size_t p = 0;
  auto line = [&](std::string *l) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) return false;
    *l = s.substr(p, e - p);
    p = e + 1;
    return true;
  };
  static const std::regex kNum("[0-9]+"), kAddr("([0-9a-f]+):([0-9]+)"), kRange("([0-9a-f]+)-([0-9a-f]+):([0-9]+)"), kBr("([0-9a-f]+)->([0-9a-f]+):([0-9]+)");
  for (int k = 0; k < 3; k++) {
    std::string l;
    if (!line(&l) || !std::regex_match(l, kNum)) return false;
    uint64_t n = strtoull(l.c_str(), nullptr, 10);
    for (uint64_t i = 0; i < n; i++) {
      if (!line(&l)) return false;
      std::smatch x;
      if (!std::regex_match(l, x, k == 0 ? kRange : k == 1 ? kAddr : kBr)) return false;
      uint64_t a = strtoull(x[1].str().c_str(), nullptr, 16);
      if (k == 1) { if (!m->addrs.emplace(a, strtoull(x[2].str().c_str(), nullptr, 10)).second) return false; continue; }
      uint64_t b = strtoull(x[2].str().c_str(), nullptr, 16), c = strtoull(x[3].str().c_str(), nullptr, 10);
      if (!(k == 0 ? m->ranges : m->branches).emplace(std::make_pair(a, b), c).second) return false;
    }
  }
  *rest = s.substr(p);
  return true;
}

uint64_t RandAddr(Rng &r) {
  switch (r.Below(6)) {
    case 0: return r.Below(8);
    case 1: return 0xffffffff81000000ull + r.Below(64);
    case 2: return ~0ull - r.Below(3);
    case 3: return r.Mag(64);
    default: return 0x400000 + r.Below(40);
  }
}
uint64_t RandCount(Rng &r) { return r.Chance(1, 12) ? r.PickOf<uint64_t>({0, 0x7fffffff, 0xffffffffull, 0x100000000ull, 1ull << 62}) : 1 + r.Mag(r.PickOf({3, 16, 40})); }

// Fills the writer through its own interface.
void Fill(Rng &r, afdo::TextSampleReaderWriter *w, Model *m, int scale) {
  int na = r.Below(scale), nr = r.Below(3) ? r.Below(scale) : 0, nb = r.Below(scale);
  if (r.Chance(1, 4)) {
    std::map<uint64_t, uint64_t> a;
    for (int i = 0; i < na; i++) a[RandAddr(r)] = RandCount(r);
    w->SetAddressCountMap(a);
    m->addrs = a;
  } else {
    for (int i = 0; i < na; i++) {
      uint64_t a = RandAddr(r), c = RandCount(r);
      if (r.Chance(1, 4)) { w->IncAddress(a); m->addrs[a] += 1; }
      else { w->IncAddress(a, c); m->addrs[a] += c; }
    }
  }
  for (int i = 0; i < nr; i++) {
    uint64_t a = RandAddr(r), b = r.Chance(1, 8) ? RandAddr(r) : a + r.Below(100), c = RandCount(r);
    if (r.Chance(1, 4)) { w->IncRange(a, b); m->ranges[{a, b}] += 1; }
    else { w->IncRange(a, b, c); m->ranges[{a, b}] += c; }
  }
  for (int i = 0; i < nb; i++) {
    uint64_t a = RandAddr(r), b = RandAddr(r), c = RandCount(r);
    if (r.Chance(1, 4)) { w->IncBranch(a, b); m->branches[{a, b}] += 1; }
    else { w->IncBranch(a, b, c); m->branches[{a, b}] += c; }
  }
}
}  // namespace

VPROP(C01) {
  Rng &r = ctx.rng;
  int n = 1 + r.Below(3), scale = r.PickOf({1, 3, 8, r.Chance(1, 10) ? 300 : 20});
  std::vector<Model> models(n);
  std::vector<std::string> files(n);
  uint64_t h = 1;
  for (int i = 0; i < n; i++) {
    files[i] = ctx.Tmp("s" + std::to_string(i) + ".txt");
    afdo::TextSampleReaderWriter w(r.Chance(1, 2) ? files[i] : std::string("/nonexistent/x"));
    Fill(r, &w, &models[i], scale);
    w.set_profile_file(files[i]);
    unlink(files[i].c_str());
    ctx.Check(!w.IsFileExist(), "missing file reported as existing", [] { return std::string(); });
    if (r.Chance(1, 4)) WriteFile(files[i], std::string(5000, '7'));  // Longer than what replaces it.
    std::string aux = r.Chance(1, 3) ? "binary.name\n12 34 aux: info\n" : "";
    bool ok = w.Write(aux.empty() && r.Chance(1, 2) ? nullptr : aux.c_str());
    ctx.Check(ok && w.IsFileExist(), "writing fails", [&] { return files[i]; });
    Model t;
    std::string rest, text = ReadFile(files[i]);
    ctx.Check(ParseText(text, &t, &rest), "text format", [&] { return text.substr(0, 500); });
    ctx.Check(t.ranges == models[i].ranges && t.addrs == models[i].addrs && t.branches == models[i].branches, "text contents", [&] { return "want" + models[i].Str() + "\n got" + t.Str(); });
    ctx.Check(rest == aux, "auxiliary text", [&] { return rest; });
    h = Mix(h, models[i].Hash());
  }
  // Reading back.
  {
    afdo::TextSampleReaderWriter rd(files[0]);
    ctx.Check(rd.ReadAndSetTotalCount(), "reading back fails", [&] { return files[0]; });
    Compare(ctx, models[0], rd, "read back");
    ctx.Check(rd.GetTotalCount() == models[0].Total(), "total count", [&] { return std::to_string(rd.GetTotalCount()) + " instead of " + std::to_string(models[0].Total()); });
    ctx.Check(!rd.IsKernelSample(), "kernel sample", [] { return std::string(); });
    Model sum = models[0];
    for (int i = 0; i < n; i++) {
      if (r.Chance(1, 2)) { ctx.Check(rd.Append(files[i]), "appending fails", [&] { return files[i]; }); }
      else {
        afdo::TextSampleReaderWriter other(files[i]);
        other.ReadAndSetTotalCount();
        rd.Merge(other);
        Compare(ctx, models[i], other, "source of a merge");
      }
      sum.Add(models[i]);
    }
    Compare(ctx, sum, rd, "append and merge");
    ctx.Check(afdo::ProfileCreator::GetTotalCountFromTextProfile(files[0]) == models[0].SampleCount(), "total of a text profile", [] { return std::string(); });
    rd.Clear();
    Compare(ctx, Model(), rd, "cleared");
    ctx.Count("files", n);
  }
  // Merging files into a new or an existing one.
  {
    std::vector<std::string> in;
    Model sum;
    for (int i = 0; i < n; i++) {
      if (r.Chance(1, 5)) in.push_back("");
      in.push_back(files[i]);
      sum.Add(models[i]);
    }
    if (r.Chance(1, 4)) { in.push_back(files[0]); sum.Add(models[0]); }
    std::string out = ctx.Tmp("merged.txt");
    unlink(out.c_str());
    if (r.Chance(1, 2)) {
      afdo::TextSampleReaderWriter w(out);
      Model m;
      Fill(r, &w, &m, scale);
      w.Write(nullptr);
      sum.Add(m);
    }
    bool bad = r.Chance(1, 8);
    std::string before = ReadFile(out);
    if (bad) in.insert(in.begin() + r.Below(in.size() + 1), ctx.Tmp("missing.txt"));
    bool ok = afdo::MergeSample(in, "text", "nobinary", out);
    if (bad) {
      ctx.Check(!ok, "merge with a missing input succeeds", [] { return std::string(); });
      ctx.Check(ReadFile(out) == before, "failed merge changes the output", [] { return std::string(); });
    } else {
      Model t;
      std::string rest, text = ReadFile(out);
      ctx.Check(ok, "merge fails", [] { return std::string(); });
      ctx.Check(ParseText(text, &t, &rest) && rest.empty(), "text format", [&] { return text.substr(0, 500); });
      ctx.Check(t.ranges == sum.ranges && t.addrs == sum.addrs && t.branches == sum.branches, "merged contents", [&] { return "want" + sum.Str() + "\n got" + t.Str(); });
      ctx.Count("merges");
    }
    if (!bad && r.Chance(1, 4)) ctx.Check(!afdo::MergeSample({files[0]}, "text", "nobinary", ctx.Tmp("no/such/dir")), "merge into an unwritable file succeeds", [] { return std::string(); });
    if (r.Chance(1, 10)) ctx.Check(!afdo::MergeSample({files[0]}, "bogus", "nobinary", ctx.Tmp("x")), "unknown profiler accepted", [] { return std::string(); });
    unlink(out.c_str());
  }
  // A file cut short is an error.
  {
    int i = r.Below(n);
    afdo::TextSampleReaderWriter w(files[i]);
    w.ReadAndSetTotalCount();
    w.Write(nullptr);
    std::string text = ReadFile(files[i]);
    std::vector<size_t> cuts;  // Before a line, or before a line's count.
    for (size_t p = 0; p < text.size(); p++) {
      if (p == 0 || text[p - 1] == '\n') cuts.push_back(p);
      if (text[p] == ':' || (p && text[p - 1] == ':')) cuts.push_back(p);
    }
    for (int k = 0; k < 3; k++) {
      size_t c = cuts[r.Below(cuts.size())];
      std::string f = ctx.Tmp("cut.txt");
      WriteFile(f, text.substr(0, c));
      afdo::TextSampleReaderWriter rd(f);
      ctx.Check(!rd.ReadAndSetTotalCount(), "truncated file accepted", [&] { return "cut at " + std::to_string(c) + " of:\n" + text.substr(0, 600); });
      ctx.Count("truncations");
    }
    afdo::TextSampleReaderWriter none(ctx.Tmp("none.txt"));
    ctx.Check(!none.ReadAndSetTotalCount(), "missing file accepted", [] { return std::string(); });
  }
  Model all;
  for (auto &m : models) all.Add(m);
  if (all.Lines() > 3) ctx.Nontrivial(h);
  ctx.Sample([&] { return std::to_string(n) + " files:" + all.Str(); });
}

namespace {
struct Loc {
  std::string dso;  // Empty: none.
  uint64_t off;
};
// One generated perf data file.
struct PerfGen {
  quipper::PerfDataProto p;
  std::vector<uint32_t> pids;
  struct Map { uint64_t start, len, pgoff; std::string name; };
  std::map<uint32_t, std::vector<Map>> maps;
  std::map<std::string, std::string> ids;  // name -> hex
  Loc At(uint32_t pid, uint64_t a) const {
    for (uint32_t q : {pid, 0xffffffffu}) {
      auto it = maps.find(q);
      if (it == maps.end()) continue;
      for (auto &m : it->second)
        if (a >= m.start && a < m.start + m.len) return {m.name, q == 0xffffffffu ? a - m.start : a - m.start + m.pgoff};
    }
    return {"", a};
  }
};
}  // namespace

static void PerfCase(Ctx &ctx, int max_files) {
  Rng &r = ctx.rng;
  const std::vector<std::string> bases = {"app1", "app10", "app.1", "clang++", "lib(x)", "a[1", "x$y", "app-1.unstripped", "vmlinux"};
  std::string base = bases[r.Below(bases.size())], stripped = base.substr(0, base.find(".unstripped"));
  std::vector<std::string> names = {"/usr/bin/" + stripped, "/opt/x/" + stripped, stripped, "/usr/bin/" + stripped + ".so", "/usr/bin/app1", "/usr/lib/appx1",
                                    "/lib/libc.so.6", "/usr/bin/clang", "[vdso]", "//anon", "/usr/bin/x" + stripped};
  const std::vector<std::string> kernel_names = {"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text", "/usr/lib/debug/vmlinux", "/boot/vmlinuxz"};
  enum { kRe, kBuildId, kCreator } mode = static_cast<decltype(kRe)>(r.Below(3));
  auto hex = [&](int n) { std::string s; for (int i = 0; i < n; i++) s += "0123456789abcdef"[r.Below(16)]; return s; };
  std::string id = hex(40), other_id = hex(40);
  std::string short_raw;  // Build ID of the binary file, when there is one.
  bool has_id = mode == kBuildId || (mode == kCreator && r.Chance(1, 2));
  int id_bytes = mode == kCreator ? r.PickOf({20, 16, 8}) : 20;
  id = id.substr(0, id_bytes * 2) + std::string(40 - id_bytes * 2, '0');

  int nfiles = mode == kCreator ? 1 : 1 + r.Below(max_files);
  std::vector<PerfGen> gens(nfiles);
  std::vector<std::string> files;
  uint64_t limit = r.Chance(1, 4) ? r.PickOf<uint64_t>({0, 0x10, 0x100000}) : 0x1000;
  absl::SetFlag(&FLAGS_strip_dup_backedge_stride_limit, limit);
  for (int f = 0; f < nfiles; f++) {
    PerfGen &g = gens[f];
    bool kernel = r.Chance(1, 3);
    for (int i = 0, n = 1 + r.Below(3); i < n; i++) g.pids.push_back(100 + r.Below(4) + 10 * i);
    if (kernel) g.maps[0xffffffffu].push_back({0xffffffff81000000ull, 0x800000, 0xffffffff81000000ull, kernel_names[r.Below(kernel_names.size())]});
    for (uint32_t pid : g.pids) {
      uint64_t at = 0x400000 + r.Below(4) * 0x1000;
      for (int i = 0, n = 1 + r.Below(4); i < n; i++) {
        uint64_t len = 0x1000 * (1 + r.Below(r.Chance(1, 3) ? 1000 : 6));
        g.maps[pid].push_back({at, len, r.Chance(1, 2) ? 0 : 0x1000 * r.Below(50), names[r.Below(r.Chance(1, 2) ? 3 : names.size())]});
        at += len + 0x1000 * r.Below(3);
      }
    }
    // Build ids.
    auto add_id = [&](const std::string &n, const std::string &x) {
      auto *b = g.p.add_build_ids();
      std::string raw;
      for (size_t i = 0; i < x.size(); i += 2) raw += static_cast<char>(strtoul(x.substr(i, 2).c_str(), nullptr, 16));
      b->set_build_id_hash(raw);
      b->set_filename(n);
      g.ids[n] = x;
    };
    if (r.Chance(5, 6)) {
      std::set<std::string> seen;
      for (auto &[pid, v] : g.maps)
        for (auto &m : v)
          if (seen.insert(m.name).second && r.Chance(3, 4)) {
            std::string n = pid == 0xffffffffu ? r.PickOf<std::string>({"[kernel.kallsyms]", "/lib/debug/vmlinux", m.name}) : m.name;
            if (!g.ids.count(n)) add_id(n, r.Chance(1, 2) ? id : other_id);
          }
    }
    for (auto &[pid, v] : g.maps)
      for (auto &m : v) {
        auto *e = g.p.add_events();
        e->mutable_header()->set_type(r.Chance(1, 2) ? 1 : 10);
        auto *x = e->mutable_mmap_event();
        x->set_pid(pid); x->set_tid(pid); x->set_start(m.start); x->set_len(m.len); x->set_pgoff(m.pgoff); x->set_filename(m.name);
      }
  }
  // Which samples count.
  std::string binary = ctx.Tmp(base);
  std::string re = ".*/" + stripped + "$";
  bool re_flag = false;
  if (mode == kCreator) {
    Elf e;
    ESec t;
    t.name = ".text"; t.flags = SHF_ALLOC | SHF_EXECINSTR; t.addr = 0x1000; t.data = std::string(64, '\x90');
    e.secs.push_back(t);
    if (has_id) {
      std::string raw;
      for (int i = 0; i < id_bytes * 2; i += 2) raw += static_cast<char>(strtoul(id.substr(i, 2).c_str(), nullptr, 16));
      e.AddBuildId(raw);
    }
    WriteFile(binary, e.Build());
    re_flag = r.Chance(1, 5);
    absl::SetFlag(&FLAGS_focus_binary_re, std::string(re_flag ? "lib" : ""));
    if (re_flag) has_id = false;
  } else {
    re = r.PickOf<std::string>({"app1$", ".*/app1$", "lib", "", "^/usr/bin/", "nothing"});
  }
  auto by_name = [&](const std::string &n) {
    auto ends = [&](const std::string &x) { return n.size() >= x.size() && n.substr(n.size() - x.size()) == x; };
    if (mode == kCreator) return re_flag ? n.find("lib") != std::string::npos : ends("/" + stripped);
    if (re == "app1$") return ends("app1");
    if (re == ".*/app1$") return ends("/app1");
    if (re == "^/usr/bin/") return n.rfind("/usr/bin/", 0) == 0;
    if (re == "") return true;
    return n.find(re) != std::string::npos;
  };
  Model want;
  std::map<uint64_t, uint64_t> want_ts;
  bool want_kernel = false;
  uint64_t branches_seen = 0, wrong = 0, skipped = 0, dup = 0, elsewhere = 0;
  for (int f = 0; f < nfiles; f++) {
    PerfGen &g = gens[f];
    std::set<std::string> focus;
    for (auto &[n, x] : g.ids)
      if (x == id) {
        if (n == "[kernel.kallsyms]" || (n.size() >= 7 && n.substr(n.size() - 7) == "vmlinux")) {
          for (auto *k : {"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text"}) focus.insert(k);
          if (has_id) want_kernel = true;
        } else focus.insert(n);
      }
    bool none = has_id && focus.empty();
    auto match = [&](const Loc &l) { return has_id ? !l.dso.empty() && focus.count(l.dso) : by_name(l.dso); };
    int samples = r.Below(r.Chance(1, 6) ? 60 : 8);
    for (int s = 0; s < samples; s++) {
      uint32_t pid = r.Chance(1, 12) ? 9999 : g.pids[r.Below(g.pids.size())];
      auto addr = [&]() -> uint64_t {
        if (r.Chance(1, 12)) return r.Mag(48);
        auto it = g.maps.find(r.Chance(1, 6) && g.maps.count(0xffffffffu) ? 0xffffffffu : pid);
        if (it == g.maps.end()) return 0x400000 + r.Below(0x100);
        auto &m = it->second[r.Chance(2, 3) ? 0 : r.Below(it->second.size())];
        switch (r.Below(8)) {
          case 0: return m.start;
          case 1: return m.start + m.len - 1;
          case 2: return m.start + m.len;
          case 3: return m.start + r.Below(m.len);
          default: return m.start + r.Below(std::min<uint64_t>(m.len, 0x60));
        }
      };
      auto *e = g.p.add_events();
      e->mutable_header()->set_type(9);
      auto *x = e->mutable_sample_event();
      uint64_t ip = addr(), ts = r.Chance(1, 8) ? 0 : r.Below(1000);
      x->set_pid(pid); x->set_tid(pid); x->set_ip(ip);
      e->set_timestamp(ts); x->set_sample_time_ns(ts);
      struct B { uint64_t from, to; uint32_t spec; };
      std::vector<B> st;
      int nb = r.PickOf<int>({0, 1, 2, 2, 3, 8, 32});
      for (int i = 0; i < nb; i++) {
        B b{addr(), addr(), static_cast<uint32_t>(r.Chance(1, 5) ? 1 : r.PickOf({0, 2, 3}))};
        if (r.Chance(2, 3) && !st.empty()) b.to = st.back().from - std::min<uint64_t>(st.back().from, r.Below(0x40));  // Executed up to the next branch.
        if (r.Chance(1, 40) && !st.empty()) b.to = st.back().from - r.PickOf<uint64_t>({1 << 20, (1 << 20) + 1, (1 << 20) - 1});
        if (i == 1 && r.Chance(1, 3)) {
          if (r.Chance(1, 2)) { st[0].to = st[0].from - r.PickOf<uint64_t>({limit, limit + 1, 0x20}); }
          b.from = st[0].from; b.to = st[0].to;
        }
        st.push_back(b);
      }
      for (auto &b : st) {
        auto *y = x->add_branch_stack();
        y->set_from_ip(b.from); y->set_to_ip(b.to); y->set_spec(b.spec);
      }
      if (none) continue;
      Loc l = g.At(pid, ip);
      if (match(l)) { want.addrs[l.off]++; want_ts.emplace(l.off, ts); }
      const B *prev = nullptr;
      for (size_t i = 0; i < st.size(); i++) {
        const B &b = st[i];
        branches_seen++;
        if (b.spec == 1) { wrong++; continue; }
        Loc from = g.At(pid, b.from), to = g.At(pid, b.to);
        const B *before = prev;
        prev = &b;
        if (!before) {
          if (match(from) && match(to)) want.branches[{from.off, to.off}]++;
          continue;
        }
        if (!match(to)) { skipped++; continue; }
        Loc pf = g.At(pid, before->from), pt = g.At(pid, before->to);
        if (i == 1 && pf.off == from.off && pt.off == to.off && pf.off - pt.off > limit) { dup++; continue; }
        if (match(pf)) {  // Else what was run is not known.
          if (pf.off < to.off || pf.off - to.off > (1 << 20)) { skipped++; continue; }
          want.ranges[{to.off, pf.off}]++;
        } else { elsewhere++; }
        if (match(from)) want.branches[{from.off, to.off}]++;
      }
    }
    std::string out = "VPERFPB1", ser;
    g.p.SerializeToString(&ser);
    files.push_back(ctx.Tmp("perf" + std::to_string(f) + ".data"));
    WriteFile(files.back(), out + ser);
  }
  if (mode == kCreator) {
    afdo::ProfileCreator c(binary);
    bool ok = c.ReadSample(files[0], "perf");
    absl::SetFlag(&FLAGS_focus_binary_re, std::string());
    if (!ctx.Check(ok, "reading fails", [&] { return binary; })) return;
    Compare(ctx, want, c.sample_reader(), "perf data");
    ctx.Check(c.sample_reader().address_timestamp_map() == want_ts, "timestamps", [] { return std::string(); });
    ctx.Check(c.IsKernelSample() == want_kernel, "kernel sample", [&] { return std::to_string(want_kernel); });
    ctx.Check(c.TotalSamples() == want.SampleCount(), "total samples", [] { return std::string(); });
  } else {
    afdo::PerfDataSampleReader rd(files[0], re, has_id ? id : "");
    bool ok = rd.ReadAndSetTotalCount();
    uint64_t total = rd.GetTotalCount();
    ctx.Check(ok, "reading fails", [&] { return files[0]; });
    for (int f = 1; f < nfiles; f++) ctx.Check(rd.Append(files[f]), "appending fails", [&] { return files[f]; });
    Compare(ctx, want, rd, "perf data");
    ctx.Check(rd.address_timestamp_map() == want_ts, "timestamps", [] { return std::string(); });
    ctx.Check(rd.IsKernelSample() == want_kernel, "kernel sample", [&] { return std::to_string(want_kernel); });
    if (nfiles == 1) ctx.Check(total == want.Total(), "total count", [&] { return std::to_string(total) + " instead of " + std::to_string(want.Total()); });
    if (r.Chance(1, 10)) {
      afdo::PerfDataSampleReader bad(ctx.Tmp("nofile"), re, "");
      ctx.Check(!bad.ReadAndSetTotalCount(), "missing perf data accepted", [] { return std::string(); });
    }
  }
  ctx.Count("branch_entries", branches_seen);
  ctx.Count("wrong_path", wrong);
  ctx.Count("bogus_or_foreign", skipped);
  ctx.Count("left_elsewhere", elsewhere);
  ctx.Count("duplicated_top", dup);
  ctx.Count("ranges", want.ranges.size());
  if (want.Lines() > 3) ctx.Nontrivial(want.Hash());
  ctx.Sample([&] { return (has_id ? "build id" : "name " + re) + want.Str(); });
}

VPROP(C02) { PerfCase(ctx, 2); }
VPROP(C02_reuse) { PerfCase(ctx, 4); }
