// link: core prop
// Damaged address maps of basic blocks (C17).
#include <signal.h>
#include "branch_aggregation.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "vmapper.h"
namespace afdo = devtools_crosstool_autofdo;
using namespace vh;

VPROP(C17) {
  Rng &r = ctx.rng;
  ProgOptions o;
  Prog p = GenProg(ctx, o);
  std::string bytes = ReadFile(p.path), how;
  // The section.
  auto word = [&](size_t i) { uint64_t v; memcpy(&v, &bytes[i], 8); return v; };
  size_t at = 0;
  uint16_t n;
  memcpy(&n, &bytes[60], 2);
  for (int i = 0; i < n && !at; i++)
    if (static_cast<uint32_t>(word(word(40) + 64 * i) >> 32) == 0x6fff4c0a) at = word(40) + 64 * i;
  if (!at || !word(at + 32) || p.funcs.empty()) { ctx.Count("no_map"); return; }
  std::string map = bytes.substr(word(at + 24), word(at + 32));
  int kind = r.Below(4);
  std::string key;
  if (kind == 0) {
    key = "map_bytes";
    for (int k = r.In(1, 3); k > 0; k--) {
      size_t i = r.Below(map.size());
      uint8_t v = r.Chance(1, 3) ? map[i] ^ (1 << r.Below(8)) : r.PickOf<uint64_t>({0, 1, 0x7f, 0x80, 0xff, r.Below(256)});
      map[i] = static_cast<char>(v);
      how += "byte " + std::to_string(i) + "=" + Hex(v) + " ";
    }
  } else if (kind == 1) {
    key = "map_cut";
    map.resize(r.Below(map.size()));
    how = "cut to " + std::to_string(map.size());
  } else {
    // Well formed, but not what a linker writes.
    key = "map_values";
    std::vector<PFunc> fs = p.funcs;
    for (int k = r.In(1, 3); k > 0 && !fs.empty(); k--) {
      size_t i = r.Below(fs.size());
      switch (r.Below(6)) {
        case 0: fs[i].bbs.clear(); how += "no blocks in " + std::to_string(i); break;
        case 1: fs.push_back(fs[i]); how += "twice " + std::to_string(i); break;
        case 2: std::swap(fs[i], fs[r.Below(fs.size())]); how += "swapped " + std::to_string(i); break;
        case 3: fs[i].addr = r.Chance(1, 2) ? r.Mag(64) : fs[r.Below(fs.size())].addr + r.Below(8); how += "address of " + std::to_string(i); break;
        case 4: if (!fs[i].bbs.empty()) r.Pick(fs[i].bbs).size = r.Mag(32); how += "size in " + std::to_string(i); break;
        default: if (!fs[i].bbs.empty()) { auto &b = fs[i].bbs[r.Below(fs[i].bbs.size())]; b.id = r.Mag(32); b.addr += r.Mag(32); } how += "block in " + std::to_string(i); break;
      }
      how += " ";
    }
    map.clear();
    for (auto &f : fs) {
      map += static_cast<char>(2);
      map += '\0';
      map.append(reinterpret_cast<const char *>(&f.addr), 8);
      map += Uleb(f.bbs.size());
      uint64_t prev = f.bbs.empty() ? 0 : f.bbs[0].addr;
      for (auto &b : f.bbs) {
        map += Uleb(b.id) + Uleb(static_cast<uint32_t>(b.addr - prev)) + Uleb(static_cast<uint32_t>(b.size)) + Uleb(b.ret | b.tail << 1 | b.pad << 2 | b.ft << 3 | b.ind << 4);
        prev = b.end();
      }
    }
  }
  uint64_t pos = bytes.size(), len = map.size();
  bytes += map;
  memcpy(&bytes[at + 24], &pos, 8);
  memcpy(&bytes[at + 32], &len, 8);
  std::string path = ctx.Tmp("damaged");
  WriteFile(path, bytes);
  bool use_hot = r.Chance(2, 3), text = r.Chance(1, 2);
  std::vector<uint64_t> probe;
  for (auto &f : p.funcs)
    for (auto &b : f.bbs) { probe.push_back(b.addr); probe.push_back(b.end()); if (b.size) probe.push_back(b.end() - 1); }
  probe.push_back(0);
  probe.push_back(~0ull);
  absl::flat_hash_set<uint64_t> hot;
  for (uint64_t a : probe) if (r.Chance(1, 2)) hot.insert(a);
  afdo::BranchAggregation agg;
  for (int k = r.Below(12); k > 0; k--) {
    uint64_t a = r.Pick(probe), b = r.Pick(probe);
    if (r.Chance(1, 2)) agg.branch_counters[{.from = a, .to = b}] += 1 + r.Below(50);
    else agg.fallthrough_counters[{.from = std::min(a, b), .to = std::max(a, b)}] += 1 + r.Below(50);
  }
  ChildResult c = RunChild(ctx, [&] {
    alarm(20);
    auto bc = afdo::GetBinaryContent(path);
    if (!bc.ok()) return "not read: " + std::string(bc.status().message());
    afdo::PropellerOptions opt;
    opt.set_filter_non_text_functions(text);
    afdo::PropellerStats st;
    auto m = afdo::BuildBinaryAddressMapper(opt, **bc, st, use_hot ? &hot : nullptr);
    if (!m.ok()) return "no map: " + std::string(m.status().message());
    int found = 0;
    for (uint64_t a : probe) {
      auto x = (*m)->FindBbHandleIndexUsingBinaryAddress(a, afdo::BranchDirection::kTo), y = (*m)->FindBbHandleIndexUsingBinaryAddress(a, afdo::BranchDirection::kFrom);
      found += x.has_value() + y.has_value();
      if (x && y) (*m)->CanFallThrough(std::min(*x, *y), std::max(*x, *y));
    }
    // Control flow graphs from it, and their layout.
    auto cfg = afdo::ProgramCfgBuilder(m->get(), st).Build(agg, std::move((*bc)->file_content), nullptr);
    if (!cfg.ok()) return "found " + std::to_string(found) + " no graphs: " + std::string(cfg.status().message());
    auto layout = afdo::GenerateLayoutBySection(**cfg, opt.code_layout_params(), st.code_layout_stats);
    return "found " + std::to_string(found) + " laid out " + std::to_string(layout.size());
  });
  ctx.Count("maps_" + key);
  ctx.Nontrivial(Mix(HashStr(map), 4));
  if (WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGKILL) { ctx.Count("inconclusive_killed"); return; }
  if (c.err.find("allocation-size-too-big") != std::string::npos || c.err.find("out of memory") != std::string::npos) { ctx.Count("inconclusive_memory"); return; }
  if (WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGALRM) { ctx.Fail("damage:" + key + ":hang", "reading a map with " + how + " does not end"); return; }
  bool abrt = c.clean_fatal() && (c.err.find("Check failed") != std::string::npos || c.err.find("\nF") != std::string::npos || c.err.find("F20") != std::string::npos || c.err.find("LLVM ERROR") != std::string::npos);
  if (c.exited0() || abrt) {
    ctx.Count(abrt ? "maps_refused" : c.out.find("laid out") != std::string::npos ? "maps_laid_out" : c.out.rfind("found", 0) == 0 ? "maps_read" : "maps_failed");
    ctx.Sample([&] { return "map with " + how + " -> " + (abrt ? c.err.substr(0, 200) : c.out); });
    return;
  }
  size_t i = std::min(c.err.find("ERROR: AddressSanitizer"), c.err.find("runtime error"));
  ctx.Fail("damage:" + key, "reading a map with " + how + " (status " + std::to_string(c.status) + "): " + c.err.substr(i == std::string::npos ? 0 : i, 1500));
}
