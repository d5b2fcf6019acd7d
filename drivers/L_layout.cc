// link: core prop
// Propeller: control flow graph operations (C25), code layout (C26), layout scores (C27) and the profiles written (C28).
#include <deque>

#include "absl_shim.h"
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_chain_merge_order.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_code_layout_scorer.h"
#include "llvm_propeller_function_cluster_info.h"
#include "llvm_propeller_node_chain.h"
#include "llvm_propeller_node_chain_assembly.h"
#include "llvm_propeller_node_chain_builder.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_program_cfg_proto_builder.h"
#include "llvm_propeller_statistics.h"
#include "vcfg.h"
#include "vcc.h"
#include "vcommon.h"

using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
using Params = afdo::PropellerCodeLayoutParameters;
using Id = std::pair<int, int>;  // function and block, as positions in the model

// The score of an edge whose source ends `dist` before its target.
double EdgeScore(const Params &p, int64_t w, int kind, int64_t dist, int src_size) {
  if (kind == 1) dist += src_size / 2;
  if (dist == 0 && kind == 0) return static_cast<double>(w) * p.fallthrough_weight();
  double d = std::abs(static_cast<double>(dist));
  if (dist > 0 && d < p.forward_jump_distance()) return static_cast<double>(w) * p.forward_jump_weight() * (1 - d / p.forward_jump_distance());
  if (dist < 0 && d < p.backward_jump_distance()) return static_cast<double>(w) * p.backward_jump_weight() * (1 - d / p.backward_jump_distance());
  return 0;
}
bool Close(double a, double b) { return std::abs(a - b) <= 1e-6 + 1e-9 * std::max(std::abs(a), std::abs(b)); }

Params RandomParams(Rng &r) {
  Params p;
  if (r.Chance(1, 2)) p.set_call_chain_clustering(r.Chance(1, 2));
  if (r.Chance(1, 2)) p.set_chain_split(r.Chance(1, 2));
  if (r.Chance(1, 2)) p.set_chain_split_threshold(r.PickOf({0, 1, 2, 3, 5, 100}));
  if (r.Chance(1, 2)) p.set_split_functions(r.Chance(1, 2));
  if (r.Chance(1, 3)) p.set_reorder_hot_blocks(r.Chance(1, 2));
  if (r.Chance(1, 2)) p.set_inter_function_reordering(r.Chance(2, 3));
  if (r.Chance(1, 3)) p.set_cluster_merge_size_threshold(r.PickOf({0, 50, 300, 2000}));
  if (r.Chance(1, 4)) p.set_fallthrough_weight(r.Below(20));
  if (r.Chance(1, 4)) p.set_forward_jump_weight(r.Below(5));
  if (r.Chance(1, 4)) p.set_backward_jump_weight(r.Below(5));
  if (r.Chance(1, 4)) p.set_forward_jump_distance(r.PickOf({0, 1, 64, 1000, 100000}));
  if (r.Chance(1, 4)) p.set_backward_jump_distance(r.PickOf({0, 1, 64, 1000, 100000}));
  return p;
}

using InitialChains = absl::flat_hash_map<int, std::vector<std::vector<afdo::CFGNode::IntraCfgId>>>;

// What is laid out.
struct LayoutModel {
  const GProg &g;
  const Params &p;
  std::vector<std::set<int>> laid;  // blocks of each function
  bool inter;
  LayoutModel(const GProg &gp, const Params &pp) : g(gp), p(pp), inter(pp.inter_function_reordering()) {
    for (size_t f = 0; f < g.funcs.size(); f++) {
      laid.emplace_back();
      if (!g.Hot(f)) continue;
      auto &ns = g.funcs[f].nodes;
      bool pads = false;
      for (size_t n = 0; n < ns.size(); n++) pads |= ns[n].pad && g.Freq(f, n);
      for (size_t n = 0; n < ns.size(); n++)
        if (!p.split_functions() || Warm(f, n, pads)) laid[f].insert(n);
    }
  }
  bool Warm(int f, int n, bool pads) const { return g.Freq(f, n) || (n == 0 && !inter) || (g.funcs[f].nodes[n].pad && pads); }
  std::vector<int> Warm(int f) const {
    bool pads = false;
    std::vector<int> x;
    auto &ns = g.funcs[f].nodes;
    for (size_t n = 0; n < ns.size(); n++) pads |= ns[n].pad && g.Freq(f, n);
    for (size_t n = 0; n < ns.size(); n++) if (Warm(f, n, pads)) x.push_back(n);
    return x;
  }
  // Chains to start with, given for some functions. Those have no others.
  std::set<int> given;
  InitialChains RandomChains(Rng &r, const afdo::ProgramCfg &pc) {
    InitialChains ic;
    for (size_t f = 0; f < g.funcs.size(); f++) {
      if (!g.Hot(f) || r.Chance(1, 3)) continue;
      auto w = Warm(f);
      r.Shuffle(w);
      auto *c = pc.GetCfgByIndex(g.funcs[f].index);
      std::vector<std::vector<afdo::CFGNode::IntraCfgId>> v;
      std::vector<afdo::CFGNode::IntraCfgId> x;
      for (int n : w) {
        if (r.Chance(1, 4)) continue;
        auto id = c->nodes()[n]->intra_cfg_id();
        // The entry is first.
        if (!x.empty() && (n == 0 || r.Chance(1, 3))) { v.push_back(x); x.clear(); }
        x.push_back(id);
      }
      if (!x.empty()) v.push_back(x);
      if (v.empty()) continue;
      given.insert(f);
      ic[g.funcs[f].index] = v;
    }
    return ic;
  }
  // Pairs of blocks of which one always follows the other.
  std::vector<std::pair<int, int>> Forced(int f) const {
    if (given.count(f)) return {};
    std::map<int, std::vector<int>> out, in;
    for (auto &e : g.edges)
      if (e.f1 == f && e.f2 == f && e.w && e.kind == 0) { out[e.n1].push_back(e.n2); in[e.n2].push_back(e.n1); }
    std::map<int, int> next;
    for (auto &[a, v] : out) if (v.size() == 1 && in[v[0]].size() == 1) next[a] = v[0];
    // Of a cycle, the edge to its first block is given up.
    std::set<int> cut, seen;
    for (auto &[a, b] : next) {
      if (seen.count(a)) continue;
      std::vector<int> path{a};
      std::set<int> on{a};
      int x = a;
      bool cycle = false;
      while (next.count(x)) {
        x = next[x];
        if (x == a) { cycle = true; break; }
        if (!on.insert(x).second) break;
        path.push_back(x);
      }
      if (!cycle) continue;
      for (int y : path) seen.insert(y);
      int best = -1;
      for (int y : path) if (best < 0 || g.funcs[f].nodes[next[y]].bb_index < g.funcs[f].nodes[next[best]].bb_index) best = y;
      // Among clones of one block any of them may be the one.
      int same = 0;
      for (int y : path) same += g.funcs[f].nodes[next[y]].bb_index == g.funcs[f].nodes[next[best]].bb_index;
      if (same > 1) for (int y : path) cut.insert(y);
      cut.insert(best);
    }
    std::vector<std::pair<int, int>> v;
    for (auto &[a, b] : next) if (!cut.count(a)) v.push_back({a, b});
    return v;
  }
  // The order of the functions of a section, where each is one chain.
  std::vector<int> FunctionOrder(const std::vector<int> &fs) const {
    struct C { std::vector<int> fs; int64_t size = 0, freq = 0; int id; bool live = true; double density() const { return static_cast<double>(freq) / std::max<int64_t>(size, 1); } };
    std::vector<C> cs;
    std::map<int, int> where;
    for (int f : fs) {
      C c;
      c.fs = {f};
      c.id = f;
      for (int n : laid[f]) { c.size += g.funcs[f].nodes[n].size; c.freq += g.Freq(f, n); }
      where[f] = cs.size();
      cs.push_back(c);
    }
    std::vector<C> one = cs;
    if (p.call_chain_clustering()) {
      std::vector<std::pair<int64_t, int>> by;
      for (int f : fs) {
        int64_t w = 0;
        for (auto &e : g.edges)
          if (e.f2 == f && e.f1 != f && e.w && e.kind != 2 && g.funcs[e.f1].section == g.funcs[f].section) w += e.w;
        if (w) by.push_back({-w, f});
      }
      std::sort(by.begin(), by.end());
      for (auto &[nw, f] : by) {
        if (one[std::find(fs.begin(), fs.end(), f) - fs.begin()].density() < 0.005) continue;
        int me = where[f];
        if (cs[me].size > p.cluster_merge_size_threshold()) continue;
        std::map<int, int64_t> from;
        for (auto &e : g.edges) {
          if (e.f2 != f || e.n2 != 0 || e.f1 == f || !e.w || e.kind == 2 || g.funcs[e.f1].section != g.funcs[f].section) continue;
          if (e.w * 10 < g.Freq(f, 0)) continue;
          int s = where[e.f1];
          if (s == me || cs[s].size > p.cluster_merge_size_threshold()) continue;
          if (8 * cs[s].size * (cs[me].freq + cs[s].freq) < cs[s].freq * (cs[me].size + cs[s].size)) continue;
          from[s] += e.w;
        }
        int best = -1;
        for (auto &[s, w] : from) if (best < 0 || std::make_pair(w, cs[s].id) > std::make_pair(from[best], cs[best].id)) best = s;
        if (best < 0) continue;
        for (int x : cs[me].fs) { where[x] = best; cs[best].fs.push_back(x); }
        cs[best].size += cs[me].size;
        cs[best].freq += cs[me].freq;
        cs[me].live = false;
      }
      std::stable_sort(cs.begin(), cs.end(), [](const C &a, const C &b) { return a.density() != b.density() ? a.density() > b.density() : a.id < b.id; });
    }
    std::vector<int> order;
    for (auto &c : cs) if (c.live) order.insert(order.end(), c.fs.begin(), c.fs.end());
    return order;
  }
};

struct Laid {
  std::vector<Id> seq;  // all blocks in the order of the layout
  std::vector<int> cluster;
};

std::string ShowSeq(const std::vector<Id> &v) {
  std::string s;
  for (auto &x : v) s += " " + std::to_string(x.first) + "#" + std::to_string(x.second);
  return s;
}

// Checks that the layout of a section is one, and puts it together.
bool CheckLayout(Ctx &ctx, const GProg &g, const LayoutModel &m, const std::string &sec, const std::vector<afdo::FunctionClusterInfo> &infos, Laid *out) {
  auto &p = m.p;
  std::vector<int> fs;
  for (size_t f = 0; f < g.funcs.size(); f++) if (g.funcs[f].section == sec && !m.laid[f].empty()) fs.push_back(f);
  std::vector<int> got;
  std::map<unsigned, std::vector<Id>> by_index;
  for (auto &i : infos) {
    int f = g.FuncByIndex(i.function_index);
    got.push_back(f);
    if (f < 0) break;
    int prev = -1;
    for (auto &c : i.clusters) {
      std::vector<Id> v;
      for (auto &b : c.full_bb_ids) {
        int n = g.NodeById(f, b.intra_cfg_id.bb_index, b.intra_cfg_id.clone_number);
        if (!ctx.Check(n >= 0 && g.funcs[f].nodes[n].bb_id == b.bb_id, "blocks of the function", [&] { return std::to_string(b.bb_id) + " of " + std::to_string(f); })) return false;
        v.push_back({f, n});
      }
      if (!ctx.Check(!v.empty() && !by_index.count(c.layout_index), "layout index of a cluster", [&] { return std::to_string(c.layout_index); })) return false;
      int id = c.full_bb_ids.front().bb_id;
      ctx.Check(id >= prev, "clusters in the order of their first blocks", [&] { return std::to_string(id) + " after " + std::to_string(prev); });
      prev = id;
      by_index[c.layout_index] = v;
    }
  }
  if (!ctx.Check(got == fs, "functions laid out, in their order", [&] {
        std::string s;
        for (int f : got) s += " " + std::to_string(f);
        s += " instead of";
        for (int f : fs) s += " " + std::to_string(f);
        return s + " in " + sec + g.Show();
      }))
    return false;
  unsigned k = 0;
  std::vector<int> order;
  for (auto &[i, v] : by_index) {
    if (!ctx.Check(i == k++, "layout indices without gaps", [&] { return std::to_string(i); })) return false;
    for (size_t x = 0; x < v.size(); x++) {
      bool starts = out->seq.empty() || out->seq.back().first != v[x].first || v[x].second == 0;
      if (!ctx.Check((x == 0) == starts, "clusters start where functions change and at entries", [&] { return ShowSeq(out->seq) + " |" + ShowSeq(v); })) return false;
      out->seq.push_back(v[x]);
      out->cluster.push_back(i);
    }
    if (!std::count(order.begin(), order.end(), v[0].first)) order.push_back(v[0].first);
  }
  // Every block that must be there is there once.
  std::vector<std::set<int>> seen(g.funcs.size());
  for (auto &x : out->seq)
    if (!ctx.Check(seen[x.first].insert(x.second).second, "each block laid out once", [&] { return ShowSeq({x}) + " twice in" + ShowSeq(out->seq); })) return false;
  for (int f : fs)
    if (!ctx.Check(seen[f] == m.laid[f], "blocks laid out", [&] {
          std::string s = std::to_string(f) + " has";
          for (int n : seen[f]) s += " " + std::to_string(n);
          s += " instead of";
          for (int n : m.laid[f]) s += " " + std::to_string(n);
          return s + " in" + g.Show();
        }))
      return false;
  // The cold parts are in the order of the hot ones.
  for (auto &i : infos) {
    int f = g.FuncByIndex(i.function_index);
    size_t at = std::find(order.begin(), order.end(), f) - order.begin();
    ctx.Check(i.cold_cluster_layout_index == at, "order of the cold parts", [&] { return std::to_string(f) + " at " + std::to_string(i.cold_cluster_layout_index) + " instead of " + std::to_string(at); });
  }
  std::map<Id, size_t> pos;
  for (size_t i = 0; i < out->seq.size(); i++) pos[out->seq[i]] = i;
  bool alone = g.SectionSize(sec) == 1;
  for (auto &i : infos) {
    int f = g.FuncByIndex(i.function_index);
    if (!m.inter) {
      ctx.Check(i.clusters.size() == 1 && i.clusters[0].full_bb_ids[0].intra_cfg_id.bb_index == 0, "one cluster, from the entry", [&] { return std::to_string(f) + " has " + std::to_string(i.clusters.size()); });
    }
    auto warm = m.Warm(f);
    std::set<int> warmset(warm.begin(), warm.end());
    std::vector<int> cold;
    for (int n : m.laid[f]) if (!warmset.count(n)) cold.push_back(n);
    auto together = [&](const std::vector<int> &v, const char *what) {
      for (size_t x = 1; x < v.size(); x++)
        if (!ctx.Check(pos[{f, v[x]}] == pos[{f, v[x - 1]}] + 1, what, [&] { return std::to_string(f) + "#" + std::to_string(v[x - 1]) + "," + std::to_string(v[x]) + " in" + ShowSeq(out->seq) + " of" + g.Show(); })) break;
    };
    together(cold, "cold blocks together, in their order");
    if (!p.reorder_hot_blocks()) together(warm, "hot blocks together, in their order");
    else
      for (auto &[a, b] : m.Forced(f)) together({a, b}, "blocks that always follow each other stay together");
    int pads = 0, hot_pads = 0;
    size_t lo = ~0ull, hi = 0;
    for (int n : m.laid[f]) {
      if (!g.funcs[f].nodes[n].pad) continue;
      pads++;
      hot_pads += g.Freq(f, n) != 0;
      lo = std::min(lo, pos[{f, n}]);
      hi = std::max(hi, pos[{f, n}]);
    }
    if (pads > 1 && hot_pads)
      for (size_t x = lo; x <= hi; x++)
        if (!ctx.Check(out->seq[x].first == f, "landing pads of a function together", [&] { return std::to_string(f) + " in" + ShowSeq(out->seq); })) break;
    // All of a function that is alone in its section is one chain, coldest blocks last.
    if ((!m.inter || alone) && !cold.empty() && cold[0] != 0)
      for (int n : warm)
        if (g.Freq(f, n)) ctx.Check(pos[{f, n}] < pos[{f, cold[0]}], "cold blocks behind the hot ones", [&] { return std::to_string(f) + "#" + std::to_string(n) + " in" + ShowSeq(out->seq); });
  }
  if (!m.inter) {
    auto want = m.FunctionOrder(fs);
    ctx.Check(order == want, "order of the functions", [&] {
      std::string s;
      for (int f : order) s += " " + std::to_string(f);
      s += " instead of";
      for (int f : want) s += " " + std::to_string(f);
      return s + " of" + g.Show();
    });
  }
  return true;
}
}  // namespace

VPROP(C26) {
  Rng &r = ctx.rng;
  GProg g = GenGraph(ctx, {});
  auto p = RandomParams(r);
  auto pc = g.Build(r);
  LayoutModel m(g, p);
  afdo::PropellerStats::CodeLayoutStats st;
  std::map<std::string, std::vector<afdo::FunctionClusterInfo>> res;
  if (r.Chance(1, 4)) {
    InitialChains ic = m.RandomChains(r, *pc);
    for (auto &[s, cfgs] : pc->GetCfgsBySectionName()) {
      afdo::CodeLayout l(p, cfgs, ic);
      res[s.str()] = l.OrderAll();
    }
    ctx.Count("initial_chains", ic.size());
  } else {
    for (auto &[s, v] : afdo::GenerateLayoutBySection(*pc, p, st)) res[s.str()] = v;
  }
  std::set<std::string> secs, got;
  for (auto &f : g.funcs) secs.insert(f.section);
  for (auto &[s, v] : res) got.insert(s);
  if (!ctx.Check(secs == got, "sections", [&] { return std::to_string(got.size()) + " instead of " + std::to_string(secs.size()); })) return;
  uint64_t h = 0, blocks = 0;
  for (auto &[s, v] : res) {
    Laid l;
    if (!CheckLayout(ctx, g, m, s, v, &l)) return;
    for (auto &x : l.seq) h = Mix(h, x.first * 64 + x.second);
    blocks += l.seq.size();
    ctx.Sample([&] { return ShowSeq(l.seq) + " of" + g.Show(); });
  }
  ctx.Count("blocks", blocks);
  if (blocks > 1) ctx.Nontrivial(h);
}

namespace {
// The sum of the scores of a function's edges for given addresses.
afdo::CFGScore ScoreOf(const GProg &g, const Params &p, int f, bool others, const std::map<Id, int64_t> &addr) {
  afdo::CFGScore s;
  for (auto &e : g.edges) {
    if (e.f1 != f || !e.w || e.kind == 2) continue;
    bool intra = e.f2 == f;
    if (!intra && (!others || g.funcs[f].section != g.funcs[e.f2].section)) continue;
    int size = g.funcs[f].nodes[e.n1].size;
    double x = EdgeScore(p, e.w, e.kind, addr.at({e.f2, e.n2}) - addr.at({e.f1, e.n1}) - size, size);
    (intra ? s.intra_score : s.inter_out_score) += x;
  }
  return s;
}

// A chain as the sequence of its bundles.
struct MChain {
  afdo::NodeChain *c;
  std::vector<std::vector<Id>> bundles;
};

struct Greedy {
  Ctx &ctx;
  const GProg &g;
  const Params &p;
  bool many;  // several functions
  std::vector<const GEdge *> used;
  std::map<const afdo::CFGNode *, Id> ids;
  std::map<Id, std::pair<const void *, size_t>> bundle_of;  // chain, position

  double SeqScore(const std::vector<const std::vector<Id> *> &bundles) const {
    std::map<Id, std::pair<int64_t, size_t>> at;
    int64_t a = 0;
    for (size_t b = 0; b < bundles.size(); b++)
      for (auto &x : *bundles[b]) { at[x] = {a, b}; a += g.Node(x).size; }
    double s = 0;
    for (auto *e : used) {
      auto i = at.find({e->f1, e->n1}), j = at.find({e->f2, e->n2});
      if (i == at.end() || j == at.end() || i->second.second == j->second.second) continue;
      int sz = g.funcs[e->f1].nodes[e->n1].size;
      s += EdgeScore(p, e->w, e->kind, j->second.first - i->second.first - sz, sz);
    }
    return s;
  }
  static std::vector<const std::vector<Id> *> Seq(std::initializer_list<std::pair<const MChain *, std::pair<size_t, size_t>>> parts) {
    std::vector<const std::vector<Id> *> v;
    for (auto &[c, r] : parts) for (size_t i = r.first; i < r.second; i++) v.push_back(&c->bundles[i]);
    return v;
  }
  // The best gain of putting two chains together.
  double Best(const MChain &s, const MChain &u) const {
    size_t n = s.bundles.size(), k = u.bundles.size();
    std::set<Id> in_s, in_u;
    for (auto &b : s.bundles) in_s.insert(b.begin(), b.end());
    for (auto &b : u.bundles) in_u.insert(b.begin(), b.end());
    bool linked = false;
    for (auto *e : used) {
      Id a{e->f1, e->n1}, b{e->f2, e->n2};
      linked |= (in_s.count(a) && in_u.count(b)) || (in_u.count(a) && in_s.count(b));
    }
    if (!linked) return 0;
    auto S = Seq({{&s, {0, n}}}), U = Seq({{&u, {0, k}}});
    double base = SeqScore(S) + SeqScore(U);
    bool entry = S[0]->front().second == 0 || U[0]->front().second == 0;
    double best = 0;
    auto consider = [&](const std::vector<const std::vector<Id> *> &q) {
      if (!p.inter_function_reordering() && entry && q[0]->front().second != 0) return;
      // Without edges between the two that score, there is nothing to gain.
      std::map<Id, int64_t> at;
      int64_t a = 0;
      for (auto *b : q) for (auto &x : *b) { at[x] = a; a += g.Node(x).size; }
      double between = 0;
      for (auto *e : used) {
        Id a{e->f1, e->n1}, b{e->f2, e->n2};
        if (!((in_s.count(a) && in_u.count(b)) || (in_u.count(a) && in_s.count(b)))) continue;
        int sz = g.Node(a).size;
        between += EdgeScore(p, e->w, e->kind, at[b] - at[a] - sz, sz);
      }
      if (between == 0) return;
      best = std::max(best, SeqScore(q) - base);
    };
    consider(Seq({{&s, {0, n}}, {&u, {0, k}}}));
    if (!p.chain_split()) return best;
    std::map<size_t, std::set<int>> at;  // orders by position
    if (n <= p.chain_split_threshold()) {
      for (size_t i = 1; i < n; i++) at[i] = {0, 1, 2, 3};
    } else {
      for (auto *e : used) {
        Id a{e->f1, e->n1}, b{e->f2, e->n2};
        for (size_t i = 1; i < n; i++) {
          if (a == u.bundles.back().back() && b == s.bundles[i].front()) at[i].insert({0, 2});
          if (b == u.bundles.front().front() && a == s.bundles[i - 1].back()) at[i].insert({0, 1});
        }
      }
    }
    for (auto &[i, orders] : at)
      for (int o : orders) {
        std::pair<size_t, size_t> s1{0, i}, s2{i, n}, uu{0, k};
        if (o == 0) consider(Seq({{&s, s1}, {&u, uu}, {&s, s2}}));
        if (o == 1) consider(Seq({{&s, s2}, {&s, s1}, {&u, uu}}));
        if (o == 2) consider(Seq({{&u, uu}, {&s, s2}, {&s, s1}}));
        if (o == 3) consider(Seq({{&s, s2}, {&u, uu}, {&s, s1}}));
      }
    return best;
  }
};
}  // namespace

VPROP(C27) {
  Rng &r = ctx.rng;
  GraphOptions go;
  go.far = r.Chance(1, 2);
  GProg g = GenGraph(ctx, go);
  auto p = RandomParams(r);
  auto pc = g.Build(r);
  LayoutModel m(g, p);
  afdo::PropellerStats::CodeLayoutStats st;
  auto res = afdo::GenerateLayoutBySection(*pc, p, st);
  uint64_t h = 0;
  double sum[4] = {};
  auto num = [](double d) { return std::to_string(d); };
  for (auto &[s, v] : res) {
    std::map<Id, int64_t> orig, opt;
    for (size_t f = 0; f < g.funcs.size(); f++) for (size_t n = 0; n < g.funcs[f].nodes.size(); n++) orig[{static_cast<int>(f), static_cast<int>(n)}] = g.funcs[f].nodes[n].addr;
    std::map<unsigned, std::vector<Id>> seq;
    for (auto &i : v)
      for (auto &c : i.clusters)
        for (auto &b : c.full_bb_ids) {
          int f = g.FuncByIndex(i.function_index);
          seq[c.layout_index].push_back({f, g.NodeById(f, b.intra_cfg_id.bb_index, b.intra_cfg_id.clone_number)});
        }
    int64_t a = 0;
    for (auto &[k, ids] : seq) for (auto &x : ids) { opt[x] = a; a += g.Node(x).size; }
    bool others = g.SectionSize(s.str()) > 1;
    for (auto &i : v) {
      int f = g.FuncByIndex(i.function_index);
      auto o = ScoreOf(g, p, f, others, orig), n = ScoreOf(g, p, f, others, opt);
      const std::pair<double, double> q[4] = {{i.original_score.intra_score, o.intra_score}, {i.optimized_score.intra_score, n.intra_score}, {i.original_score.inter_out_score, o.inter_out_score}, {i.optimized_score.inter_out_score, n.inter_out_score}};
      static const char *kNames[] = {"original score of a function", "new score of a function", "original score between functions", "new score between functions"};
      for (int k = 0; k < 4; k++) {
        if (!ctx.Check(Close(q[k].first, q[k].second), kNames[k], [&] { return std::to_string(f) + " " + num(q[k].first) + " instead of " + num(q[k].second) + " of" + g.Show(); })) return;
        sum[k] += q[k].second;
        h = Mix(h, static_cast<uint64_t>(q[k].second * 16));
      }
    }
  }
  ctx.Check(Close(st.original_intra_score, sum[0]) && Close(st.optimized_intra_score, sum[1]) && Close(st.original_inter_score, sum[2]) && Close(st.optimized_inter_score, sum[3]), "scores of the program",
            [&] { return num(st.original_intra_score) + " " + num(sum[0]) + " " + num(st.optimized_intra_score) + " " + num(sum[1]); });
  if (sum[0] + sum[1] > 0) ctx.Nontrivial(h);

  // Every edge's score at any distance, also the ones a layout does not have.
  {
    afdo::PropellerCodeLayoutScorer scorer(p);
    for (const auto &cfg : pc->GetCfgs())
      for (bool out : {false, true})
        for (const auto &e : out ? cfg->inter_edges() : cfg->intra_edges()) {
          int64_t fd = p.forward_jump_distance(), bd = p.backward_jump_distance();
          int ss = e->src()->size(), ts = e->sink()->size();
          int64_t d = r.PickOf<int64_t>({0, 1, -1, fd - 1, fd, -bd, 1 - bd, -(ss / 2), -(ts / 2), fd - ts / 2, -bd - ts / 2, 1 - bd - ts / 2, static_cast<int64_t>(r.Below(2000)), -static_cast<int64_t>(r.Below(2000)), int64_t{1} << 40, -(int64_t{1} << 40)});
          double want = e->IsReturn() ? EdgeScore(p, e->weight(), 2, d + ts / 2, 0) : EdgeScore(p, e->weight(), e->IsCall() ? 1 : 0, d, ss);
          double got = scorer.GetEdgeScore(*e, d);
          if (!ctx.Check(Close(got, want), "score of an edge", [&] { return num(got) + " instead of " + num(want) + " at distance " + std::to_string(d) + " kind " + (e->IsReturn() ? "return" : e->IsCall() ? "call" : "branch"); })) return;
          ctx.Count("edge_scores");
        }
  }

  // The chains of a function, or of a section, built step by step.
  std::string sec = g.funcs[r.Below(g.funcs.size())].section;
  std::vector<const afdo::ControlFlowGraph *> cfgs;
  std::set<int> in;
  for (size_t f = 0; f < g.funcs.size(); f++)
    if (g.funcs[f].section == sec) { cfgs.push_back(pc->GetCfgByIndex(g.funcs[f].index)); in.insert(f); }
  if (!p.inter_function_reordering()) {
    size_t k = r.Below(cfgs.size());
    int f = *std::next(in.begin(), k);
    cfgs = {cfgs[k]};
    in = {f};
  }
  Greedy gr{ctx, g, p, cfgs.size() > 1, {}, {}, {}};
  for (auto &e : g.edges) {
    if (!in.count(e.f1) || !in.count(e.f2) || !e.w || e.kind == 2) continue;
    if (e.kind == 1 && !(p.inter_function_reordering() && gr.many)) continue;
    gr.used.push_back(&e);
  }
  for (int f : in) {
    auto *c = pc->GetCfgByIndex(g.funcs[f].index);
    for (size_t n = 0; n < c->nodes().size(); n++) gr.ids[c->nodes()[n].get()] = {f, static_cast<int>(n)};
  }
  afdo::PropellerStats::CodeLayoutStats st2;
  const afdo::PropellerCodeLayoutScorer scorer(p);
  bool tree = r.Chance(1, 2);
  InitialChains ic;
  if (r.Chance(1, 4)) ic = LayoutModel(g, p).RandomChains(r, *pc);
  ctx.Count("initial_chains", ic.size());
  auto b = tree ? afdo::NodeChainBuilder::CreateNodeChainBuilder<afdo::NodeChainAssemblyBalancedTreeQueue>(scorer, cfgs, ic, st2)
                : afdo::NodeChainBuilder::CreateNodeChainBuilder<afdo::NodeChainAssemblyIterativeQueue>(scorer, cfgs, ic, st2);
  b.InitNodeChains();
  {
    // The statistics tell the chains there were at first; those within functions whose
    // landing pads have to stay together come on top.
    int one = 0, more = 0;
    bool nested = false;
    for (auto &[id, c] : b.chains()) {
      size_t nodes = 0;
      for (auto &bd : c->node_bundles()) nodes += bd->nodes().size();
      (nodes == 1 ? one : more)++;
    }
    if (p.inter_function_reordering() && cfgs.size() > 1)
      for (auto *c : cfgs) nested |= c->n_landing_pads() > 1 && c->has_hot_landing_pads();
    if (!nested) {
      ctx.Check(st2.n_single_node_chains == one && st2.n_multi_node_chains == more && st2.n_assemblies_by_merge_order.empty(), "number of chains in the statistics", [&] { return std::to_string(st2.n_single_node_chains) + " and " + std::to_string(st2.n_multi_node_chains) + " instead of " + std::to_string(one) + " and " + std::to_string(more) + g.Show(); });
      ctx.Count("chain_statistics");
    }
  }
  b.InitChainEdges();
  b.InitChainAssemblies();
  int steps = 0;
  std::vector<std::vector<Id>> expect;  // the chains to be seen next, without their bundles
  int known = 0;
  for (;;) {
    std::vector<MChain> cs;
    for (auto &[id, c] : b.chains()) {
      MChain mc{c.get(), {}};
      int64_t off = 0, freq = 0;
      int idx = 0;
      for (auto &bd : c->node_bundles()) {
        std::vector<Id> ns;
        auto &cm = bd->chain_mapping();
        if (!ctx.Check(cm.chain == c.get() && cm.chain_index == idx && cm.chain_offset == off, "bundle in its place", [&] { return std::to_string(cm.chain_index) + " " + std::to_string(cm.chain_offset) + " instead of " + std::to_string(idx) + " " + std::to_string(off) + " after " + std::to_string(steps) + g.Show(); })) return;
        int64_t in_b = 0;
        for (auto *n : bd->nodes()) {
          Id x = gr.ids.at(n);
          ns.push_back(x);
          auto &e = b.node_to_bundle_mapper().GetBundleMappingEntry(n);
          if (!ctx.Check(e.bundle == bd.get() && e.bundle_offset == in_b, "block in its place", [&] { return ShowSeq({x}) + " at " + std::to_string(e.bundle_offset) + " instead of " + std::to_string(in_b) + " after " + std::to_string(steps) + g.Show(); })) return;
          in_b += n->size();
          freq += g.Freq(x.first, x.second);
        }
        ctx.Check(bd->size() == in_b, "size of a bundle", [&] { return std::to_string(bd->size()); });
        off += in_b;
        idx++;
        mc.bundles.push_back(ns);
      }
      ctx.Check(c->size() == off && c->freq() == freq, "size and frequency of a chain", [&] { return std::to_string(c->size()) + "/" + std::to_string(off) + " " + std::to_string(c->freq()) + "/" + std::to_string(freq); });
      std::set<int> of;
      for (auto &bd : mc.bundles) for (auto &x : bd) of.insert(g.funcs[x.first].index);
      ctx.Check(of.size() == 1 ? c->function_index() == *of.begin() : !c->function_index().has_value(), "function of a chain", [&] { return std::to_string(c->function_index().value_or(-1)) + " for " + std::to_string(of.size()) + " functions" + g.Show(); });
      cs.push_back(mc);
    }
    // The sums are of numbers as large as `total`.
    double total = 0;
    for (auto *e : gr.used) total += static_cast<double>(e->w) * std::max({p.fallthrough_weight(), p.forward_jump_weight(), p.backward_jump_weight()});
    std::set<Id> all;
    size_t count = 0;
    for (auto &c : cs) {
      double want = gr.SeqScore(Greedy::Seq({{&c, {0, c.bundles.size()}}}));
      if (!ctx.Check(Close(c.c->score(), want) || std::abs(c.c->score() - want) <= 1e-6 + 1e-13 * total, "score of a chain", [&] { return num(c.c->score()) + " instead of " + num(want) + " after " + std::to_string(steps) + " steps" + g.Show(); })) return;
      for (auto &bd : c.bundles) { all.insert(bd.begin(), bd.end()); count += bd.size(); }
    }
    if (!ctx.Check(count == all.size() && (steps == 0 || static_cast<int>(count) == known), "blocks kept", [&] { return std::to_string(count); })) return;
    known = count;
    if (steps) {
      // The chain just made is the one announced.
      bool found = false;
      for (auto &c : cs) {
        std::vector<Id> flat;
        for (auto &bd : c.bundles) flat.insert(flat.end(), bd.begin(), bd.end());
        found |= flat == expect[0];
      }
      if (!ctx.Check(found, "chains put together as announced", [&] { return ShowSeq(expect[0]); })) return;
    }
    if (count > 40) { ctx.Count("too_big"); break; }
    double best = 0;
    for (auto &s : cs) for (auto &u : cs) if (s.c != u.c) best = std::max(best, gr.Best(s, u));
    double eps = 1e-6 + 1e-9 * best + 1e-13 * total;
    if (b.node_chain_assemblies().empty()) {
      if (cfgs.size() == 1 && !cs.empty()) {
        // What is left of one function is put together: the entry first, then by execution density.
        struct Part { bool entry; double density; Id id; std::vector<Id> nodes; };
        std::vector<Part> parts;
        for (auto &c : cs) {
          Part q{c.bundles[0][0].second == 0, 0, {}, {}};
          int64_t freq = 0, size = 0;
          for (auto &bd : c.bundles) for (auto &x : bd) { q.nodes.push_back(x); freq += g.Freq(x.first, x.second); size += g.Node(x).size; }
          q.density = static_cast<double>(freq) / std::max<int64_t>(size, 1);
          q.id = {0, static_cast<int>(c.c->id().intra_cfg_id.bb_index)};
          parts.push_back(q);
        }
        std::sort(parts.begin(), parts.end(), [](const Part &x, const Part &y) { return std::make_tuple(!x.entry, -x.density, x.id) < std::make_tuple(!y.entry, -y.density, y.id); });
        bool tie = false;
        for (size_t i = 1; i < parts.size(); i++) tie |= parts[i].density == parts[i - 1].density && parts[i].id == parts[i - 1].id;
        std::vector<Id> want, got;
        for (auto &q : parts) want.insert(want.end(), q.nodes.begin(), q.nodes.end());
        b.CoalesceChains();
        ctx.Check(b.chains().size() == 1, "one chain per function", [&] { return std::to_string(b.chains().size()); });
        for (auto &[id, c] : b.chains()) for (auto &bd : c->node_bundles()) for (auto *n : bd->nodes()) got.push_back(gr.ids.at(n));
        if (!tie) ctx.Check(got == want, "order of what is left of a function", [&] { return ShowSeq(got) + " instead of " + ShowSeq(want) + " of" + g.Show(); });
        if (parts.size() > 2) ctx.Count("coalesced_chains", parts.size());
      }
      ctx.Check(best <= eps, "nothing left to gain", [&] { return num(best) + " after " + std::to_string(steps) + " steps of" + g.Show() + " " + p.ShortDebugString(); });
      break;
    }
    auto a = b.node_chain_assemblies().GetBestAssembly();
    if (!ctx.Check(std::abs(a.score_gain() - best) <= eps, "the best way to put chains together", [&] { return num(a.score_gain()) + " instead of " + num(best) + " after " + std::to_string(steps) + " steps of" + g.Show() + " " + p.ShortDebugString(); })) return;
    expect.assign(1, {});
    a.VisitEachNodeBundleInAssemblyOrder([&](const afdo::CFGNodeBundle &bd) { for (auto *n : bd.nodes()) expect[0].push_back(gr.ids.at(n)); });
    auto order = a.merge_order();
    const int before = st2.n_assemblies_by_merge_order[order];
    auto others = st2.n_assemblies_by_merge_order;
    b.MergeChains(a);
    others[order]++;
    ctx.Check(st2.n_assemblies_by_merge_order == others, "number of merges in the statistics", [&] { return std::to_string(st2.n_assemblies_by_merge_order[order]) + " after " + std::to_string(before); });
    steps++;
    ctx.Count("steps");
  }
}

VPROP(C25) {
  Rng &r = ctx.rng;
  GraphOptions go;
  go.inter_branches = true;
  GProg g = GenGraph(ctx, go);
  auto pc = g.Build(r);
  uint64_t h = 3;
  // Sections and order.
  auto cfgs = pc->GetCfgs();
  std::vector<int> order, want_order;
  for (auto *c : cfgs) order.push_back(c->function_index());
  for (auto &f : g.funcs) want_order.push_back(f.index);
  ctx.Check(order == want_order, "functions in their order", [&] { return std::to_string(order.size()); });
  std::map<std::string, std::set<int>> secs, want_secs;
  for (auto &[s, v] : pc->GetCfgsBySectionName()) for (auto *c : v) ctx.Check(secs[s.str()].insert(c->function_index()).second, "function in one section once", [&] { return s.str(); });
  for (auto &f : g.funcs) want_secs[f.section].insert(f.index);
  ctx.Check(secs == want_secs, "functions by section", [&] { return std::to_string(secs.size()); });
  auto by_index = pc->cfgs_by_index();
  auto by_name = pc->cfgs_by_name();
  ctx.Check(by_index.size() == g.funcs.size() && by_name.size() == g.funcs.size() && !pc->GetCfgByIndex(100000), "functions by index and name", [&] { return std::to_string(by_index.size()); });
  // Frequencies.
  std::vector<int64_t> hot;
  for (size_t f = 0; f < g.funcs.size(); f++) {
    auto &F = g.funcs[f];
    auto *c = pc->GetCfgByIndex(F.index);
    if (!ctx.Check(c && by_index.at(F.index) == c && by_name.at(F.names[0]) == c && c->GetPrimaryName().str() == F.names[0], "function by index and name", [&] { return F.names[0]; })) return;
    auto fr = c->GetNodeFrequencies();
    int nh = 0, np = 0, ne = 0, pads = 0;
    for (size_t n = 0; n < F.nodes.size(); n++) {
      int64_t q = g.Freq(f, n);
      if (!ctx.Check(fr.size() == F.nodes.size() && fr[n] == q && c->nodes()[n]->CalculateFrequency() == q, "block frequency", [&] { return std::to_string(fr[n]) + " instead of " + std::to_string(q) + " of " + std::to_string(f) + "#" + std::to_string(n) + g.Show(); })) return;
      pads += F.nodes[n].pad;
      if (!q) continue;
      hot.push_back(q);
      nh++;
      np += F.nodes[n].pad;
      ne += !F.nodes[n].size;
      h = Mix(h, q);
    }
    auto s = c->GetNodeFrequencyStats();
    ctx.Check(s.n_hot_blocks == nh && s.n_hot_landing_pads == np && s.n_hot_empty_blocks == ne && c->n_landing_pads() == pads && !!c->has_hot_landing_pads() == (np > 0) && c->is_hot() == g.Hot(f), "counts of hot blocks", [&] {
      return std::to_string(s.n_hot_blocks) + " " + std::to_string(s.n_hot_landing_pads) + " " + std::to_string(s.n_hot_empty_blocks) + " of" + g.Show();
    });
    // Clones are found by number.
    std::map<int, std::vector<int>> clones;
    for (size_t n = 0; n < F.nodes.size(); n++) clones[F.nodes[n].bb_index].push_back(n);
    for (auto &[b, v] : clones) {
      auto all = c->GetAllClonesForBbIndex(b);
      bool same = all.size() == v.size();
      for (size_t i = 0; same && i < v.size(); i++) {
        auto &n = *all[i];
        auto &o = F.nodes[v[0]];
        same = c->nodes()[v[i]].get() == &n && n.clone_number() == static_cast<int>(i) && n.node_index() == v[i] && n.bb_id() == o.bb_id && n.size() == o.size && n.addr() == o.addr && n.is_landing_pad() == o.pad && n.has_return() == o.ret && &c->GetNodeById(n.intra_cfg_id()) == &n &&
               n.can_fallthrough() == o.ft && n.has_tail_call() == o.tail && n.has_indirect_branch() == o.ind && n.is_cloned() == (i > 0);
      }
      ctx.Check(same, "clones of a block", [&] { return std::to_string(f) + "#" + std::to_string(b); });
    }
    std::vector<std::vector<int>> paths;
    for (auto &path : c->clone_paths()) {
      paths.emplace_back();
      for (auto &x : path) paths.back().push_back(g.NodeById(f, x.intra_cfg_id.bb_index, x.intra_cfg_id.clone_number));
    }
    ctx.Check(paths == F.paths, "cloned paths", [&] { return std::to_string(paths.size()) + " instead of " + std::to_string(F.paths.size()); });
    // A copy has the same blocks and the same edges within.
    auto copy = afdo::CloneCfg(*c);
    std::map<std::pair<int, int>, std::pair<int64_t, int>> want, got;
    for (auto &e : g.edges) if (e.f1 == static_cast<int>(f) && e.f2 == static_cast<int>(f)) want[{e.n1, e.n2}] = {e.w, e.kind};
    for (auto &e : copy->intra_edges()) {
      int k = e->IsCall() ? 1 : e->IsReturn() ? 2 : 0;
      bool own = copy->nodes()[e->src()->node_index()].get() == e->src() && copy->nodes()[e->sink()->node_index()].get() == e->sink();
      ctx.Check(own && got.emplace(std::make_pair(e->src()->node_index(), e->sink()->node_index()), std::make_pair(static_cast<int64_t>(e->weight()), k)).second, "edge of a copy", [&] { return std::to_string(e->src()->node_index()); });
    }
    bool same = want == got && copy->inter_edges().empty() && copy->nodes().size() == F.nodes.size() && copy->names().size() == F.names.size() && copy->section_name() == c->section_name() && copy->module_name() == c->module_name() && copy->function_index() == F.index &&
                copy->n_landing_pads() == pads;
    for (size_t n = 0; same && n < F.nodes.size(); n++) {
      auto &x = *copy->nodes()[n], &y = *c->nodes()[n];
      same = x.inter_cfg_id() == y.inter_cfg_id() && x.node_index() == y.node_index() && x.bb_id() == y.bb_id() && x.addr() == y.addr() && x.size() == y.size() && x.is_landing_pad() == y.is_landing_pad() && x.has_return() == y.has_return() && x.can_fallthrough() == y.can_fallthrough() &&
             x.inter_ins().empty() && x.inter_outs().empty();
    }
    ctx.Check(same, "copy of a function", [&] { return std::to_string(f) + " of" + g.Show(); });
    // Edges are found from their source.
    for (int i = 0; i < 6; i++) {
      int a = r.Below(F.nodes.size()), f2 = r.Chance(2, 3) ? f : r.Below(g.funcs.size()), b2 = r.Below(g.funcs[f2].nodes.size()), k = r.Below(3);
      const GEdge *e = nullptr;
      for (auto &x : g.edges) if (x.f1 == static_cast<int>(f) && x.n1 == a && x.f2 == f2 && x.n2 == b2 && x.kind == k) e = &x;
      auto *ge = c->nodes()[a]->GetEdgeTo(*pc->GetCfgByIndex(g.funcs[f2].index)->nodes()[b2], static_cast<afdo::CFGEdge::Kind>(k));
      ctx.Check(!!ge == !!e && (!ge || (ge->weight() == e->w && ge->src() == c->nodes()[a].get())), "edge found", [&] { return std::to_string(a) + ">" + std::to_string(b2); });
    }
  }
  // Thresholds.
  std::sort(hot.begin(), hot.end());
  std::set<int> pcts = {0, 1, 50, 99, 100, static_cast<int>(r.Below(101)), static_cast<int>(r.Below(101))};
  for (int q : pcts) {
    int64_t at = static_cast<int64_t>(hot.size()) * q / 100 - 1;
    int64_t want = at < 0 ? 0 : hot[at];
    int got = pc->GetNodeFrequencyThreshold(q);
    ctx.Check(got == want, "frequency threshold", [&] { return std::to_string(q) + "% of " + std::to_string(hot.size()) + " is " + std::to_string(got) + " instead of " + std::to_string(want); });
  }
  for (int i = 0; i < 4; i++) {
    int64_t tn = hot.empty() ? r.Below(5) : hot[r.Below(hot.size())] + r.Below(2), te = g.edges.empty() ? 0 : g.edges[r.Below(g.edges.size())].w + r.Below(2);
    std::map<int, std::set<int>> want, got;
    for (size_t f = 0; f < g.funcs.size(); f++)
      for (size_t n = 0; n < g.funcs[f].nodes.size(); n++) {
        if (g.funcs[f].nodes[n].bb_index == 0 || g.Freq(f, n) < tn) continue;
        int k = 0;
        for (auto &e : g.edges) k += e.f1 == static_cast<int>(f) && e.f2 == static_cast<int>(f) && e.n2 == static_cast<int>(n) && e.n1 != e.n2 && e.kind == 0 && e.w >= te;
        if (k > 1) want[g.funcs[f].index].insert(g.funcs[f].nodes[n].bb_index);
      }
    for (auto &[f, s] : pc->GetHotJoinNodes(tn, te)) got[f].insert(s.begin(), s.end());
    ctx.Check(want == got, "hot join blocks", [&] { return std::to_string(got.size()) + " functions instead of " + std::to_string(want.size()) + " at " + std::to_string(tn) + "," + std::to_string(te) + " of" + g.Show(); });
  }
  // Adding to edges.
  auto cm = std::move(*pc).release_cfgs_by_index();
  if (ctx.Check(cm.size() == g.funcs.size(), "functions released", [&] { return std::to_string(cm.size()); })) {
    for (int i = 0; i < 4; i++) {
      size_t f = r.Below(g.funcs.size());
      auto &c = *cm.at(g.funcs[f].index);
      int a = r.Below(c.nodes().size()), b = r.Below(c.nodes().size());
      GEdge *e = nullptr;
      for (auto &x : g.edges) if (x.f1 == static_cast<int>(f) && x.f2 == x.f1 && x.n1 == a && x.n2 == b) e = &x;
      int k = e ? e->kind : 0, w = r.Below(1000);
      if (e && e->w > 1000000) continue;
      auto n = c.intra_edges().size();
      auto *ge = c.CreateOrUpdateEdge(c.nodes()[a].get(), c.nodes()[b].get(), w, static_cast<afdo::CFGEdge::Kind>(k), false);
      if (e) e->w += w;
      else g.edges.push_back({static_cast<int>(f), a, static_cast<int>(f), b, w, k}), n++;
      auto &x = e ? *e : g.edges.back();
      ctx.Check(ge && ge->weight() == x.w && c.intra_edges().size() == n && std::count(c.nodes()[a]->intra_outs().begin(), c.nodes()[a]->intra_outs().end(), ge) == 1 && std::count(c.nodes()[b]->intra_ins().begin(), c.nodes()[b]->intra_ins().end(), ge) == 1, "edge added to", [&] { return std::to_string(ge->weight()) + " instead of " + std::to_string(x.w); });
    }
  }
  // Written and read as a protocol buffer.
  bool cloned = false;
  for (auto &f : g.funcs) cloned |= !f.paths.empty();
  if (!cloned) {
    std::string path = ctx.Tmp("cfg.pb");
    {
      afdo::ProgramCfgProtoBuilder b;
      bool ok = b.InitWriter(path);
      b.AddCfgs(cm);
      ctx.Check(ok && b.WriteAndClose(), "protocol buffer written", [&] { return path; });
    }
    afdo::ProgramCfgProtoBuilder rd;
    if (ctx.Check(rd.Read(path), "protocol buffer read", [&] { return path; })) {
      auto &pb = rd.program_cfg_pb();
      std::vector<const afdo::ControlFlowGraphPb *> fs;
      for (auto &c : pb.cfg()) fs.push_back(&c);
      bool sorted = std::is_sorted(fs.begin(), fs.end(), [](auto *a, auto *b) { return a->function_index() < b->function_index(); });
      ctx.Check(sorted && fs.size() == g.funcs.size(), "functions of the protocol buffer in their order", [&] { return std::to_string(fs.size()); });
      for (auto *c : fs) {
        int f = g.FuncByIndex(c->function_index());
        if (!ctx.Check(f >= 0, "function of the protocol buffer", [&] { return std::to_string(c->function_index()); })) continue;
        auto &F = g.funcs[f];
        bool same = c->section_name() == F.section && c->node_size() == static_cast<int>(F.nodes.size()) && std::vector<std::string>(c->name().begin(), c->name().end()) == F.names;
        for (int n = 0; same && n < c->node_size(); n++) {
          auto &x = c->node(n);
          auto &y = F.nodes[n];
          same = x.size() == static_cast<uint64_t>(y.size) && x.bb_id() == static_cast<uint32_t>(y.bb_id) && x.metadata().can_fallthrough() == y.ft && x.metadata().has_return() == y.ret && x.metadata().has_tail_call() == y.tail && x.metadata().is_landing_pad() == y.pad;
          std::map<int, std::pair<int64_t, int>> want, got;
          for (auto &e : g.edges) if (e.f1 == f && e.n1 == n && e.f2 == f) want[e.n2] = {e.w, e.kind};
          for (auto &e : x.out_edges())
            if (e.sink().function_index() == c->function_index()) got[e.sink().bb_index()] = {static_cast<int64_t>(e.weight()), e.kind()};
          same = same && want == got;
        }
        ctx.Check(same, "function of the protocol buffer", [&] { return c->ShortDebugString() + " of" + g.Show(); });
      }
    }
    unlink(path.c_str());
    ctx.Count("protos");
  }
  if (!g.edges.empty()) ctx.Nontrivial(h);
}


VPROP(C28) {
  Rng &r = ctx.rng;
  GraphOptions go;
  go.modules = r.Chance(1, 2);
  bool v1 = r.Chance(2, 3), verbose = r.Chance(1, 2), dump = r.Chance(1, 3);
  go.clones = v1;
  GProg g = GenGraph(ctx, go);
  auto p = RandomParams(r);
  if (r.Chance(1, 2)) p.set_inter_function_reordering(true);
  LayoutModel m(g, p);
  afdo::PropellerStats::CodeLayoutStats st;
  afdo::PropellerProfile prof;
  prof.program_cfg = g.Build(r);
  prof.functions_cluster_info_by_section_name = afdo::GenerateLayoutBySection(*prof.program_cfg, p, st);
  afdo::PropellerOptions o;
  std::string cc = ctx.Tmp("cc.txt"), ld = ctx.Tmp("ld.txt"), dir = ctx.Tmp("cfgs");
  if (r.Chance(1, 8)) { WriteFile(cc, std::string(20000, 'x')); WriteFile(ld, std::string(20000, 'y')); }  // replaced
  o.set_cluster_out_name(cc);
  o.set_symbol_order_out_name(ld);
  if (!v1) o.set_cluster_out_version(afdo::VERSION_0);
  else if (r.Chance(1, 2)) o.set_cluster_out_version(afdo::VERSION_1);
  if (verbose || r.Chance(1, 2)) o.set_verbose_cluster_output(verbose);
  if (dump) { o.set_cfg_dump_dir_name(dir); if (r.Chance(1, 2)) mkdir(dir.c_str(), 0700); }
  afdo::PropellerProfileWriter(o).Write(prof);
  std::string cct = ReadFile(cc), ldt = ReadFile(ld);
  unlink(cc.c_str());
  unlink(ld.c_str());
  std::vector<CcFunc> fs;
  std::string err = ParseCc(cct, v1, &fs);
  if (!ctx.Check(err.empty(), "cluster file is well formed", [&] { return err + " in " + cct.substr(0, 1500); })) return;
  // The functions, section by section.
  struct Part { int f; std::vector<Id> blocks; };
  size_t at = 0;
  auto ldl = Split(ldt, '\n');
  size_t ldat = 0;
  uint64_t h = v1;
  auto show = [&] { return cct.substr(0, 1200) + " --- " + ldt.substr(0, 800); };
  for (auto &[sec, infos] : prof.functions_cluster_info_by_section_name) {
    std::map<std::string, Part> symbols;  // what each symbol of a hot part stands for
    std::map<std::string, int> cold_symbols;
    size_t hot_names = 0, cold_names = 0;
    for (auto &info : infos) {
      int f = g.FuncByIndex(info.function_index);
      auto &F = g.funcs[f];
      if (!ctx.Check(at < fs.size(), "functions in the cluster file", show)) return;
      auto &c = fs[at++];
      if (!ctx.Check(c.names == F.names && c.has_module == F.module.has_value() && (!F.module || c.module == *F.module), "names and module of a function", show)) return;
      if (verbose) ctx.Check(c.section == F.section, "section of a function", show);
      std::vector<std::vector<int>> paths;
      for (auto &q : F.paths) { paths.emplace_back(); for (int n : q) paths.back().push_back(F.nodes[n].bb_id); }
      ctx.Check(c.paths == paths, "cloned paths of a function", show);
      std::set<int> placed;
      bool entry_in = false;
      if (!ctx.Check(c.clusters.size() == info.clusters.size(), "clusters of a function", show)) return;
      for (size_t k = 0; k < c.clusters.size(); k++) {
        Part part{f, {}};
        for (auto &[id, clone] : c.clusters[k]) {
          int n = -1;
          for (size_t x = 0; x < F.nodes.size(); x++) if (F.nodes[x].bb_id == id && F.nodes[x].clone == clone) n = x;
          if (!ctx.Check(n >= 0 && placed.insert(n).second, "block of a cluster", show)) return;
          part.blocks.push_back({f, n});
        }
        bool entry = part.blocks[0].second == 0;
        entry_in |= entry;
        for (auto &name : F.names) { symbols[entry ? name : name + ".__part." + std::to_string(k)] = part; hot_names++; }
      }
      if (placed.size() != F.nodes.size())
        for (auto &name : F.names) { cold_symbols[entry_in ? name + ".cold" : name] = f; cold_names++; }
      if (verbose) {
        char b[400];
        snprintf(b, sizeof b, "[intra: %f -> %f] [inter: %f -> %f]", info.original_score.intra_score, info.optimized_score.intra_score, info.original_score.inter_out_score, info.optimized_score.inter_out_score);
        ctx.Check(c.score == b && c.entry_freq == std::to_string(g.Freq(f, 0)), "scores and entry frequency of a function", [&] { return c.score + " " + c.entry_freq + " instead of " + b + " " + std::to_string(g.Freq(f, 0)); });
        std::vector<std::string> want;
        bool ok = c.prof.size() == F.nodes.size();
        for (size_t n = 0; ok && n < F.nodes.size(); n++) {
          auto w = Split(c.prof[n], ' ');
          std::multiset<std::string> got(w.begin() + 1, w.end()), exp;
          for (auto &e : g.edges) if (e.f1 == f && e.n1 == static_cast<int>(n) && e.kind == 0) exp.insert(std::to_string(g.Node({e.f2, e.n2}).bb_id) + ":" + std::to_string(e.w));
          ok = w[0] == std::to_string(F.nodes[n].bb_id) + ":" + std::to_string(g.Freq(f, n)) && got == exp;
        }
        ctx.Check(ok, "edge profile of a function", [&] { std::string s; for (auto &x : c.prof) s += x + "|"; return s + g.Show(); });
      } else {
        ctx.Check(c.score.empty() && c.prof.empty() && c.entry_freq.empty() && c.section.empty(), "no comments unless asked for", show);
      }
    }
    // The linker places the symbols in the order listed: that is the layout.
    Laid l;
    if (!CheckLayout(ctx, g, m, sec.str(), infos, &l)) return;
    std::vector<Id> linked;
    std::set<std::string> done;
    const Part *last = nullptr;
    std::set<const void *> dummy;
    std::vector<Id> prev;
    for (size_t k = 0; k < hot_names; k++) {
      if (!ctx.Check(ldat < ldl.size(), "symbols of the hot parts", show)) return;
      auto it = symbols.find(ldl[ldat++]);
      if (!ctx.Check(it != symbols.end() && done.insert(it->first).second, "symbol of a hot part", [&] { return ldl[ldat - 1] + " in " + show(); })) return;
      if (it->second.blocks == prev) continue;  // another name of the same
      prev = it->second.blocks;
      linked.insert(linked.end(), prev.begin(), prev.end());
    }
    (void)last;
    if (!ctx.Check(linked == l.seq, "symbol order gives the layout", [&] { return ShowSeq(linked) + " instead of" + ShowSeq(l.seq) + " from " + show(); })) return;
    std::vector<int> cold;
    for (size_t k = 0; k < cold_names; k++) {
      if (!ctx.Check(ldat < ldl.size(), "symbols of the cold parts", show)) return;
      auto it = cold_symbols.find(ldl[ldat++]);
      if (!ctx.Check(it != cold_symbols.end() && done.insert(it->first).second, "symbol of a cold part", [&] { return ldl[ldat - 1] + " in " + show(); })) return;
      if (cold.empty() || cold.back() != it->second) cold.push_back(it->second);
    }
    std::vector<int> order;
    std::set<int> with_cold;
    for (auto &[s, f] : cold_symbols) with_cold.insert(f);
    for (auto &x : l.seq) if (with_cold.count(x.first) && !std::count(order.begin(), order.end(), x.first)) order.push_back(x.first);
    ctx.Check(cold == order, "cold parts in the order of the hot ones", show);
    for (auto &x : l.seq) h = Mix(h, x.first * 64 + x.second);
    ctx.Count("functions", infos.size());
  }
  ctx.Check(at == fs.size() && ldat == ldl.size(), "nothing else written", show);
  if (dump) {
    auto lines = Split(ReadFile(dir + "/cfg-index.txt"), '\n');
    size_t k = 1;
    ctx.Check(!lines.empty() && lines[0] == "Function.Name Function.Address N_Nodes N_Clusters Original.ExtTSP.Score Optimized.ExtTSP.Score", "header of the graph index", [&] { return lines.empty() ? "" : lines[0]; });
    for (auto &[sec, infos] : prof.functions_cluster_info_by_section_name)
      for (auto &info : infos) {
        int f = g.FuncByIndex(info.function_index);
        auto &F = g.funcs[f];
        auto w = k < lines.size() ? Split(lines[k], ' ') : std::vector<std::string>();
        k++;
        auto near = [](const std::string &s, double d) { double x = atof(s.c_str()); return std::abs(x - d) <= 1e-4 * std::abs(d) + 1e-6; };
        if (!ctx.Check(w.size() == 6 && w[0] == F.names[0] && w[1] == Hex(F.nodes[0].addr) && w[2] == std::to_string(F.nodes.size()) && w[3] == std::to_string(info.clusters.size()) && near(w[4], info.original_score.intra_score) && near(w[5], info.optimized_score.intra_score),
                       "graph index", [&] { return k <= lines.size() ? lines[k - 1] : "missing"; }))
          continue;
        // Functions of no size share an address and thus a file.
        int same = 0;
        for (auto &x : g.funcs) same += x.nodes[0].addr == F.nodes[0].addr;
        if (same > 1) continue;
        std::string dot = ReadFile(dir + "/" + Hex(F.nodes[0].addr) + ".dot");
        std::set<std::string> dl, want;
        for (auto &x : Split(dot, '\n')) if (x.find('[') != std::string::npos) {
          // The frequency of a block is always printed as 0 (pinned by an existing unit test): not judged.
          size_t q = x.find("xlabel=\""), h = q == std::string::npos ? q : x.find('#', q);
          dl.insert(h == std::string::npos ? x : x.substr(0, q + 8) + x.substr(h));
        }
        std::set<std::pair<int, int>> next;
        for (auto &c : info.clusters) for (size_t i = 1; i < c.full_bb_ids.size(); i++)
          next.insert({g.NodeById(f, c.full_bb_ids[i - 1].intra_cfg_id.bb_index, c.full_bb_ids[i - 1].intra_cfg_id.clone_number), g.NodeById(f, c.full_bb_ids[i].intra_cfg_id.bb_index, c.full_bb_ids[i].intra_cfg_id.clone_number)});
        auto label = [&](int n) { return std::to_string(F.nodes[n].bb_id) + (F.nodes[n].clone ? "." + std::to_string(F.nodes[n].clone) : ""); };
        for (size_t n = 0; n < F.nodes.size(); n++)
          want.insert(label(n) + " [xlabel=\"#" + std::to_string(F.nodes[n].size) + "#" + std::to_string(F.nodes[n].bb_index) + "\", color = \"" + (F.nodes[n].clone ? "red" : "black") + "\" ];");
        for (auto &e : g.edges)
          if (e.f1 == f && e.f2 == f) want.insert(label(e.n1) + " -> " + label(e.n2) + "[ label=\"" + "BCR"[e.kind] + "#" + std::to_string(e.w) + "\", color =\"" + (next.count({e.n1, e.n2}) ? "red" : "black") + "\"];");
        ctx.Check(dl == want, "graph drawn", [&] {
          std::string s;
          for (auto &x : dl) if (!want.count(x)) s += " +" + x;
          for (auto &x : want) if (!dl.count(x)) s += " -" + x;
          return s + g.Show();
        });
        ctx.Count("graphs_drawn");
      }
    ctx.Check(k == lines.size(), "functions in the graph index", [&] { return std::to_string(lines.size()); });
    std::string cmd = "rm -rf '" + dir + "'";
    if (dir.rfind(ctx.tmp, 0) == 0 && !ctx.tmp.empty() && system(cmd.c_str())) {}
  }
  if (at) ctx.Nontrivial(h);
  ctx.Sample([&] { return cct + "---\n" + ldt; });
}
