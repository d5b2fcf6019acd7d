// Random control flow graphs of a program, with clones, landing pads, calls and returns.
#ifndef VERIF_VCFG_H_
#define VERIF_VCFG_H_
#include <deque>
#include <optional>

#include "llvm_propeller_cfg.h"
#include "llvm_propeller_program_cfg.h"
#include "vcommon.h"

namespace vh {
struct GNode {
  int bb_index = 0, bb_id = 0, clone = 0, size = 0;
  uint64_t addr = 0;
  bool pad = false, ret = false, tail = false, ft = false, ind = false;
};
struct GFunc {
  int index = 0;
  std::string section;
  std::vector<std::string> names;
  std::optional<std::string> module;
  std::vector<GNode> nodes;              // clones behind the original blocks
  std::vector<std::vector<int>> paths;   // cloned paths, from the block before them
  std::vector<std::vector<int>> cloned;  // as asked for
};
struct GEdge { int f1, n1, f2, n2; int64_t w; int kind; };
struct GraphOptions {
  int max_funcs = 6, max_nodes = 9;
  bool far = false;             // functions far from each other
  bool inter_branches = false;  // branches into other functions
  bool clones = true;
  bool modules = false;
  int min_funcs = 1;
};
struct GProg {
  std::vector<GFunc> funcs;
  std::vector<GEdge> edges;
  int FuncByIndex(int i) const {
    for (size_t f = 0; f < funcs.size(); f++) if (funcs[f].index == i) return f;
    return -1;
  }
  int NodeById(int f, int bb, int clone) const {
    for (size_t n = 0; n < funcs[f].nodes.size(); n++) if (funcs[f].nodes[n].bb_index == bb && funcs[f].nodes[n].clone == clone) return n;
    return -1;
  }
  const GNode &Node(const std::pair<int, int> &x) const { return funcs[x.first].nodes[x.second]; }
  int SectionSize(const std::string &s) const {
    int k = 0;
    for (auto &f : funcs) k += f.section == s;
    return k;
  }
  int64_t Freq(int f, int n) const {
    int64_t call = 0, ret = 0, in = 0, out = 0;
    for (auto &e : edges) {
      if (e.f1 == f && e.n1 == n) { if (e.kind == 1) call = std::max(call, e.w); else out += e.w; }
      if (e.f2 == f && e.n2 == n) { if (e.kind == 2) ret = std::max(ret, e.w); else in += e.w; }
    }
    return std::max({call, ret, in, out});
  }
  bool Hot(int f) const {
    for (auto &e : edges) if (e.f1 == f || e.f2 == f) return true;
    return false;
  }
  std::string Show() const {
    std::string s;
    for (size_t f = 0; f < funcs.size(); f++) {
      s += " [" + std::to_string(f) + "=" + std::to_string(funcs[f].index) + " " + funcs[f].section;
      for (auto &n : funcs[f].nodes) s += " " + std::to_string(n.bb_index) + (n.clone ? "." + std::to_string(n.clone) : "") + "+" + std::to_string(n.size) + (n.pad ? "p" : "");
      s += "]";
    }
    for (auto &e : edges) s += " " + std::to_string(e.f1) + "#" + std::to_string(e.n1) + ">" + std::to_string(e.f2) + "#" + std::to_string(e.n2) + ":" + std::to_string(e.w) + "BCR"[e.kind];
    return s;
  }
  // The names and sections stay with this object.
  std::unique_ptr<devtools_crosstool_autofdo::ProgramCfg> Build(Rng &r) const {
    namespace afdo = devtools_crosstool_autofdo;
    std::vector<size_t> order(funcs.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = i;
    r.Shuffle(order);
    absl::flat_hash_map<int, std::unique_ptr<afdo::ControlFlowGraph>> m;
    for (size_t f : order) {
      auto &F = funcs[f];
      std::vector<std::unique_ptr<afdo::CFGNode>> ns;
      for (auto &n : F.nodes) {
        if (n.clone) continue;
        llvm::object::BBAddrMap::BBEntry::Metadata md{};
        md.HasReturn = n.ret; md.HasTailCall = n.tail; md.IsEHPad = n.pad; md.CanFallThrough = n.ft; md.HasIndirectBranch = n.ind;
        ns.push_back(std::make_unique<afdo::CFGNode>(n.addr, n.bb_index, n.bb_id, n.size, md, F.index));
      }
      llvm::SmallVector<llvm::StringRef, 3> names(F.names.begin(), F.names.end());
      std::optional<llvm::StringRef> mod;
      if (F.module) mod = llvm::StringRef(*F.module);
      auto c = std::make_unique<afdo::ControlFlowGraph>(F.section, F.index, mod, names, std::move(ns));
      for (auto &p : F.cloned) c->ClonePath(p[0], absl::Span<const int>(p.data() + 1, p.size() - 1));
      m.emplace(F.index, std::move(c));
    }
    for (auto &e : edges) {
      auto &a = *m.at(funcs[e.f1].index), &b = *m.at(funcs[e.f2].index);
      a.CreateEdge(a.nodes()[e.n1].get(), b.nodes()[e.n2].get(), e.w, static_cast<afdo::CFGEdge::Kind>(e.kind), funcs[e.f1].section != funcs[e.f2].section);
    }
    return std::make_unique<afdo::ProgramCfg>(std::move(m));
  }
};

inline GProg GenGraph(Ctx &ctx, const GraphOptions &o) {
  Rng &r = ctx.rng;
  GProg g;
  int nf = o.min_funcs + r.Below(o.max_funcs), index = 0;
  static const char *kSecs[] = {".text", ".text", ".text", ".text.hot", ".init.text"};
  bool one_section = r.Chance(1, 2), clones = o.clones && r.Chance(1, 3);
  uint64_t addr = r.PickOf<uint64_t>({0x1000, 0x400000, 0xffffffff81000000ull});
  int size_kind = r.Below(3), serial = 0;
  for (int f = 0; f < nf; f++) {
    GFunc F;
    index += 1 + (r.Chance(1, 3) ? r.Below(5) : 0);
    F.index = index;
    F.section = one_section ? ".text" : kSecs[r.Below(5)];
    for (int k = 0, n = 1 + (r.Chance(1, 5) ? 1 + r.Below(2) : 0); k < n; k++) F.names.push_back("f" + std::to_string(serial++) + (k ? "_alias" : ""));
    if (o.modules && r.Chance(2, 3)) F.module = "dir/mod" + std::to_string(r.Below(3)) + ".cc";
    int nb = 1 + r.Below(o.max_nodes);
    std::vector<int> ids(nb * 2);
    for (size_t i = 0; i < ids.size(); i++) ids[i] = i;
    bool shuffled = r.Chance(1, 2);
    int keep = r.Chance(1, 3) ? 0 : 1;
    if (shuffled) { std::vector<int> x(ids.begin() + keep, ids.end()); r.Shuffle(x); std::copy(x.begin(), x.end(), ids.begin() + keep); }
    bool pads = r.Chance(1, 3);
    for (int b = 0; b < nb; b++) {
      GNode n;
      n.bb_index = b;
      n.bb_id = ids[b];
      n.addr = addr;
      n.size = r.Chance(1, 8) ? 0 : size_kind == 0 ? 1 + r.Below(16) : size_kind == 1 ? 1 + r.Below(200) : r.PickOf({1, 5, 300, 700, 1100, 3000});
      n.pad = pads && b && r.Chance(1, 3);
      n.ret = r.Chance(1, 4); n.tail = r.Chance(1, 8); n.ft = r.Chance(1, 2); n.ind = r.Chance(1, 8);
      addr += n.size;
      F.nodes.push_back(n);
    }
    addr += r.Below(40);
    if (o.far && r.Chance(1, 3)) addr += r.PickOf<uint64_t>({1ull << 20, 1ull << 31, 1ull << 32, (1ull << 32) - 50});
    if (clones && nb > 2)
      for (int k = 0, n = r.Below(3); k < n; k++) {
        std::vector<int> path{static_cast<int>(r.Below(nb))}, as{path[0]};
        std::set<int> on;
        for (int j = 0, m = 1 + r.Below(3); j < m; j++) {
          int b = 1 + r.Below(nb - 1);
          if (!on.insert(b).second) break;
          GNode c = F.nodes[b];
          c.clone = 1;
          for (auto &x : F.nodes) if (x.clone && x.bb_index == b) c.clone++;
          path.push_back(b);
          as.push_back(F.nodes.size());
          F.nodes.push_back(c);
        }
        F.cloned.push_back(path);
        F.paths.push_back(as);
      }
    g.funcs.push_back(F);
  }
  // Edges. No branch leads to an entry, and those to other functions are calls and returns.
  std::map<std::pair<std::pair<int, int>, std::pair<int, int>>, bool> have;
  std::map<std::pair<int, int>, int64_t> load;
  int big = r.PickOf({3, 6, 12, 26, 29});
  auto add = [&](int f1, int n1, int f2, int n2, int kind) {
    int64_t w = r.Chance(1, 3) ? 1 + r.Below(3) * 50 : 1 + static_cast<int64_t>(r.Mag(big));
    if (big == 29 && r.Chance(1, 6)) w = (1ll << 30) + r.Below(1000);
    auto &a = load[{f1, n1}], &b = load[{f2, n2}];
    if (a + w > 0x7fffffff || b + w > 0x7fffffff) return;
    if (!have.emplace(std::make_pair(std::make_pair(f1, n1), std::make_pair(f2, n2)), true).second) return;
    a += w;
    if (f1 != f2 || n1 != n2) b += w;
    g.edges.push_back({f1, n1, f2, n2, w, kind});
  };
  for (int f = 0; f < nf; f++) {
    auto &ns = g.funcs[f].nodes;
    int n = ns.size();
    if (r.Chance(1, 5)) continue;
    auto not_entry = [&](int b) { return ns[b].bb_index != 0; };
    int shape = r.Below(3);
    for (int b = 0; b < n; b++) {
      if (shape == 0) {  // a path with side exits
        if (b + 1 < n && r.Chance(5, 6)) add(f, b, f, b + 1, 0);
        if (r.Chance(1, 3)) { int t = r.Below(n); if (not_entry(t)) add(f, b, f, t, 0); }
      } else if (shape == 1) {
        for (int k = 0, m = r.Below(3); k < m; k++) { int t = r.Below(n); if (not_entry(t)) add(f, b, f, t, 0); }
      } else if (r.Chance(1, 2)) {  // sparse
        int t = r.Chance(1, 2) ? std::min(n - 1, b + 1 + static_cast<int>(r.Below(3))) : static_cast<int>(r.Below(n));
        if (not_entry(t)) add(f, b, f, t, 0);
      }
      if (r.Chance(1, 10)) add(f, b, f, 0, 1);                  // recursion
      if (r.Chance(1, 12)) add(f, r.Below(n), f, b, 2);
    }
  }
  for (int k = 0, m = r.Below(2 * nf + 1); k < m; k++) {
    int f = r.Below(nf), t = r.Below(nf);
    if (f == t) continue;
    int a = r.Below(g.funcs[f].nodes.size()), b = r.Below(g.funcs[t].nodes.size());
    add(f, a, t, 0, 1);
    if (r.Chance(1, 2)) add(t, b, f, a, 2);
    if (o.inter_branches && r.Chance(1, 4)) add(f, r.Below(g.funcs[f].nodes.size()), t, b, 0);
  }
  // Edges without weight change nothing.
  for (int k = 0, m = r.Chance(1, 4) ? r.Below(4) : 0; k < m && !g.edges.empty(); k++) {
    auto e = g.edges[r.Below(g.edges.size())];
    int n1 = r.Below(g.funcs[e.f1].nodes.size()), n2 = r.Below(g.funcs[e.f1].nodes.size());
    if (have.emplace(std::make_pair(std::make_pair(e.f1, n1), std::make_pair(e.f1, n2)), true).second) g.edges.push_back({e.f1, n1, e.f1, n2, 0, 0});
  }
  r.Shuffle(g.edges);
  return g;
}
}  // namespace vh
#endif
