// link: core
// The SPE sample reader of create_gcov (no LLVM): second part of C20.
#include <sys/stat.h>
#include <unistd.h>
#include "profile_creator.h"
#include "simple_spe_sample_reader.h"
#include "vcommon.h"
#include "vperf.h"
using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
struct Want {
  bool ok = false;
  std::map<uint64_t, uint64_t> not_taken;
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> taken, ranges;
  uint64_t total = 0;
};
struct Map { uint64_t start, len, pgoff; std::string name; };
std::string Base(const std::string &n) {
  size_t p = n.rfind('/');
  return p == std::string::npos ? n : n.substr(p + 1);
}
// The ranges by running through the code one instruction at a time.
void Ranges(Want *w) {
  std::map<uint64_t, uint64_t> in;
  std::set<uint64_t> branch;
  for (auto &[b, n] : w->taken) { in[b.second] += n; branch.insert(b.first); }
  for (auto &[a, n] : w->not_taken) branch.insert(a);
  if (in.empty()) return;
  uint64_t end = in.rbegin()->first + 0x1000, weight = 0, start = 0;
  bool open = false;
  auto close = [&](uint64_t last) {
    if (open && weight) w->ranges[{start, last}] += weight;
    open = false;
  };
  for (uint64_t a = in.begin()->first; a < end; a += 4) {
    auto t = in.find(a);
    if (t != in.end()) { close(a - 4); weight += t->second; }
    if (!open) { open = true; start = a; }
    if (weight && branch.count(a)) {  // code seen to run from a target only
      close(a);
      weight = w->not_taken.count(a) ? w->not_taken[a] : 0;
    }
  }
  close(end - 4);
}
}  // namespace

VPROP(C20_simple) {
  Rng &r = ctx.rng;
  std::string binary = r.PickOf<std::string>({"/some/dir/prog", "prog"});
  std::vector<Want> wants;
  std::vector<std::string> files;
  for (int k = 0, n = 1 + r.Below(3); k < n; k++) {
    PerfData d;
    std::vector<Map> maps;
    for (int i = 0, c = r.Below(6); i < c; i++) {
      Map m;
      m.start = r.PickOf<uint64_t>({0x400000, 0x7f0000000000, 0xaaaaaaaa0000}) + r.Below(64) * 0x1000;
      m.len = 0x200 * (1 + r.Below(8));
      m.pgoff = r.Chance(1, 3) ? 0 : r.Below(4) * 0x1000;
      m.name = r.PickOf<std::string>({"/usr/bin/prog", "prog", "/lib/libc.so", "/usr/bin/prog2", "/prog/other", "[vdso]", "/opt/prog"});
      maps.push_back(m);
    }
    const Map *m = nullptr;
    for (auto &x : maps) if (!m && Base(x.name) == "prog") m = &x;
    std::vector<std::pair<bool, size_t>> order;   // interleaving of maps and traces
    std::vector<std::vector<SpeRec>> traces(r.Chance(1, 15) ? 0 : 1 + r.Below(3));
    auto addr = [&]() -> uint64_t {
      if (r.Chance(1, 20)) return 0;
      if (!m || r.Chance(1, 10)) return maps.empty() ? r.Mag(47) : maps[r.Below(maps.size())].start + 4 * r.Below(64);
      if (r.Chance(1, 10)) return m->start + m->len - 4 * r.Below(2);
      if (r.Chance(1, 10)) return m->start;
      return m->start + 4 * r.Below(r.Chance(1, 2) ? 12 : m->len / 4);
    };
    Want w;
    for (auto &t : traces) {
      for (int i = 0, c = r.Below(20); i < c; i++) {
        SpeRec x;
        x.ip = addr(); x.target = addr();
        x.retired = !r.Chance(1, 8); x.branch = !r.Chance(1, 8); x.cond = r.Chance(1, 2); x.not_taken = r.Chance(1, 2);
        for (int j = 0, rep = r.Chance(1, 3) ? 1 + r.Below(5) : 1; j < rep; j++) {
          t.push_back(x);
          if (!m || !x.retired || !x.branch) continue;
          auto off = [&](uint64_t a) { return a >= m->start && a < m->start + m->len ? a - m->start + m->pgoff : 0; };
          if (!off(x.ip)) continue;
          if (x.cond && x.not_taken) w.not_taken[off(x.ip)]++;
          else if (off(x.target)) w.taken[{off(x.ip), off(x.target)}]++;
        }
      }
    }
    for (size_t i = 0; i < maps.size(); i++) order.push_back({false, i});
    for (size_t i = 0; i < traces.size(); i++) order.insert(order.begin() + r.Below(order.size() + 1), {true, i});
    for (auto &[trace, i] : order) {
      if (trace) d.Aux(traces[i]);
      else d.Mmap(7, maps[i].start, maps[i].len, maps[i].pgoff, maps[i].name);
    }
    w.ok = m && (!w.not_taken.empty() || !w.taken.empty());
    Ranges(&w);
    if (!w.ranges.empty()) for (auto &[g, c] : w.ranges) w.total += c * (1 + g.second - g.first);
    else for (auto &[a, c] : w.not_taken) w.total += c;
    files.push_back(ctx.Tmp("spe" + std::to_string(k)));
    WriteFile(files.back(), d.Str());
    wants.push_back(w);
  }
  afdo::SimpleSpeDataSampleReader rd(files[0], binary);
  Want sum;
  for (size_t k = 0; k < files.size(); k++) {
    bool ok = k == 0 ? rd.ReadAndSetTotalCount() : rd.Append(files[k]);
    if (!ctx.Check(ok == wants[k].ok, "SPE data accepted", [&] { return std::string(ok ? "accepted" : "rejected") + " file " + std::to_string(k); })) return;
    if (k == 0 && !ok) return;
    if (ok) {
      for (auto &[a, c] : wants[k].not_taken) sum.not_taken[a] += c;
      for (auto &[a, c] : wants[k].taken) sum.taken[a] += c;
      for (auto &[a, c] : wants[k].ranges) sum.ranges[a] += c;
      sum.total += wants[k].total;
    }
    auto show = [](const std::map<std::pair<uint64_t, uint64_t>, uint64_t> &m) {
      std::string s;
      for (auto &[b, c] : m) s += " " + Hex(b.first) + "-" + Hex(b.second) + ":" + std::to_string(c);
      return s;
    };
    std::map<uint64_t, uint64_t> nt(rd.address_count_map().begin(), rd.address_count_map().end());
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> tk(rd.branch_count_map().begin(), rd.branch_count_map().end()),
        rg(rd.range_count_map().begin(), rd.range_count_map().end());
    if (!ctx.Check(nt == sum.not_taken, "branches not taken", [&] { return std::to_string(nt.size()) + " addresses instead of " + std::to_string(sum.not_taken.size()); })) return;
    if (!ctx.Check(tk == sum.taken, "branches taken", [&] { return show(tk) + " instead of" + show(sum.taken); })) return;
    if (!ctx.Check(rg == sum.ranges, "ranges run", [&] { return show(rg) + " instead of" + show(sum.ranges) + " from" + show(sum.taken); })) return;
    if (!ctx.Check(rd.GetTotalCount() == sum.total, "total count", [&] { return std::to_string(rd.GetTotalCount()) + " instead of " + std::to_string(sum.total); })) return;
  }
  ctx.Count("ranges", sum.ranges.size());
  // The same as a whole.
  if (r.Chance(1, 6)) {
    std::string dir = ctx.Tmp("dir"), text = ctx.Tmp("text");
    mkdir(dir.c_str(), 0700);
    WriteFile(dir + "/prog", "no program");
    bool all = true;
    for (auto &w : wants) all = all && w.ok;
    Want got;
    bool ok = afdo::MergeSample(files, "perf_spe", dir + "/prog", text);
    if (ctx.Check(ok == all, "merging SPE data", [&] { return std::string(ok ? "accepted" : "rejected"); }) && ok) {
      std::map<std::pair<uint64_t, uint64_t>, uint64_t> tk, rg;
      std::map<uint64_t, uint64_t> nt;
      ctx.Check(ParseSampleText(text, &rg, &nt, &tk) && rg == sum.ranges && tk == sum.taken && nt == sum.not_taken, "merged SPE data", [&] { return std::to_string(rg.size()) + " " + std::to_string(nt.size()) + " " + std::to_string(tk.size()); });
      ctx.Count("merged");
    }
    unlink((dir + "/prog").c_str());
    rmdir(dir.c_str());
    unlink(text.c_str());
  }
  uint64_t h = 1;
  for (auto &[g, c] : sum.ranges) h = Mix(Mix(Mix(h, g.first), g.second), c);
  for (auto &[g, c] : sum.taken) h = Mix(Mix(Mix(h, g.first), g.second), c);
  if (!sum.ranges.empty()) ctx.Nontrivial(h);
  for (auto &f : files) unlink(f.c_str());
}
