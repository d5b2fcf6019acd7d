// link: core prop
// Propeller: address map of a binary (C23), fall-throughs from branch counts (C21),
// control flow graphs from branch counts (C24).
#include "absl_shim.h"
#include "frequencies_branch_aggregator.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_statistics.h"
#include "vmapper.h"
#include "vcommon.h"

using namespace vh;
namespace afdo = devtools_crosstool_autofdo;
using afdo::BranchDirection;

namespace {
afdo::BbHandle BH(const H &h) { return {.function_index = h.f, .bb_index = h.b}; }
}  // namespace

VPROP(C23) {
  Rng &r = ctx.rng;
  Setup s;
  MakeSetup(ctx, &s, ProgOptions(), r.Chance(2, 3));
  if (!s.ok) { unlink(s.prog.path.c_str()); return; }
  auto &m = *s.mapper;
  auto &w = s.model;
  auto name_of = [&](int i) { return std::to_string(i) + "@" + Hex(s.prog.funcs[i].addr) + (s.prog.funcs[i].names.empty() ? "" : ":" + s.prog.funcs[i].names[0]); };
  std::set<int> got(m.selected_functions().begin(), m.selected_functions().end());
  bool ok = ctx.Check(got == w.sel, "functions selected", [&] {
    std::string x, y;
    for (int i : got) x += " " + name_of(i);
    for (int i : w.sel) y += " " + name_of(i);
    return x + " instead of" + y;
  });
  if (!ok) return;
  std::vector<H> hs;
  for (auto &h : m.bb_handles()) hs.push_back({h.function_index, h.bb_index});
  if (!ctx.Check(hs == w.handles, "blocks in the order of their addresses", [&] { return std::to_string(hs.size()) + " blocks instead of " + std::to_string(w.handles.size()); })) return;
  std::set<int> infos;
  for (auto &[i, info] : m.symbol_info_map()) infos.insert(i);
  if (!ctx.Check(infos == w.sel, "names kept for the selected functions", [&] { return std::to_string(infos.size()); })) return;
  for (int i : w.sel) {
    auto &f = s.prog.funcs[i];
    auto &info = m.symbol_info_map().at(i);
    std::vector<std::string> n;
    for (auto &x : info.aliases) n.push_back(x.str());
    ctx.Check(n == f.names, "function names", [&] { std::string x; for (auto &y : n) x += " " + y; return name_of(i) + " has" + x; });
    ctx.Check(info.section_name.str() == f.OutSec(), "output section", [&] { return name_of(i) + " is in " + info.section_name.str() + " instead of " + f.OutSec(); });
  }
  auto &st = s.stats.bbaddrmap_stats;
  ctx.Check(st.duplicate_symbols == w.dup && st.hot_functions == w.hot && st.bbaddrmap_function_does_not_have_symtab_entry == w.noname, "statistics of the address map", [&] {
    return "duplicates " + std::to_string(st.duplicate_symbols) + "/" + std::to_string(w.dup) + " hot " + std::to_string(st.hot_functions) + "/" + std::to_string(w.hot) + " nameless " +
           std::to_string(st.bbaddrmap_function_does_not_have_symtab_entry) + "/" + std::to_string(w.noname);
  });
  uint64_t hash = 0;
  for (size_t i = 0; i < hs.size(); i++) {
    const PBlock &b = w.B(hs[i]);
    auto bh = m.bb_handles()[i];
    auto &e = m.GetBBEntry(bh);
    bool same = m.GetAddress(bh) == b.addr && m.GetEndAddress(bh) == b.end() && e.ID == b.id && e.hasReturn() == b.ret && e.hasTailCall() == b.tail && e.isEHPad() == b.pad && e.canFallThrough() == b.ft &&
                e.hasIndirectBranch() == b.ind && m.GetFunctionEntry(bh).getFunctionAddress() == s.prog.funcs[hs[i].f].addr;
    if (!ctx.Check(same, "block data", [&] { return m.GetName(bh) + " at " + Hex(m.GetAddress(bh)); })) return;
    ctx.Check(m.GetName(bh) == s.prog.funcs[hs[i].f].names[0] + ":" + std::to_string(hs[i].b), "block name", [&] { return m.GetName(bh); });
    hash = Mix(Mix(hash, b.addr), b.size * 4 + b.ft * 2 + b.ret);
  }
  std::set<uint64_t> probe = {0, s.prog.lo, s.prog.hi, s.prog.lo - 1, ~0ull};
  for (auto &f : s.prog.funcs)
    for (auto &b : f.bbs) for (uint64_t a : {b.addr, b.addr + 1, b.end(), b.end() - 1, b.addr - 1}) probe.insert(a);
  for (uint64_t a : probe)
    for (bool to : {false, true}) {
      auto g = m.FindBbHandleIndexUsingBinaryAddress(a, to ? BranchDirection::kTo : BranchDirection::kFrom);
      int want = w.Find(a, to);
      ctx.Count("lookups");
      if (!ctx.Check(g.value_or(-1) == want, to ? "block branched to" : "block branched from", [&] { return Hex(a) + " is in block " + std::to_string(g.value_or(-1)) + " instead of " + std::to_string(want) + " of" + w.Show(); })) return;
      if (!g) continue;
      H h = w.handles[*g];
      if (to) {
        bool call = h.b == 0 && a == w.B(h).addr;
        ctx.Check(m.IsCall(BH(h), a) == call, "call", [&] { return Hex(a); });
        int from = w.handles.empty() ? -1 : static_cast<int>(r.Below(w.handles.size() + 1)) - 1;
        bool ret = a != w.B(h).addr || (h.b != 0 && (from < 0 || w.B(w.handles[from]).ret));
        auto fh = from < 0 ? std::optional<afdo::BbHandle>() : std::optional<afdo::BbHandle>(BH(w.handles[from]));
        ctx.Check(m.IsReturn(fh, BH(h), a) == ret, "return", [&] { return Hex(a) + " from " + std::to_string(from); });
      }
    }
  for (int i = 0; i < 24 && !hs.empty(); i++) {
    int a = r.Below(hs.size()), b = r.Chance(1, 3) ? r.Below(hs.size()) : std::min<int>(hs.size() - 1, a + r.Below(4));
    if (!ctx.Check(m.CanFallThrough(a, b) == w.Falls(a, b), "fall-through between blocks", [&] { return std::to_string(a) + " to " + std::to_string(b) + " of" + w.Show(); })) return;
  }
  if (!w.sel.empty()) ctx.Nontrivial(hash);
  ctx.Sample([&] { return w.Show(); });
  unlink(s.prog.path.c_str());
}

VPROP(C21) {
  Rng &r = ctx.rng;
  Setup s;
  ProgOptions o;
  o.awkward = r.Chance(1, 4);
  o.aligned = r.Chance(1, 2);
  MakeSetup(ctx, &s, o, r.Chance(1, 6));
  if (!s.ok) { unlink(s.prog.path.c_str()); return; }
  auto &w = s.model;
  afdo::BranchFrequencies fr;
  std::map<std::pair<uint64_t, uint64_t>, int64_t> taken;
  std::map<uint64_t, int64_t> not_taken;
  for (int i = 0, n = r.Below(20); i < n; i++) taken[{w.From(r), w.Addr(r)}] = 1 + r.Mag(r.PickOf({4, 10, 33}));
  for (int i = 0, n = r.Below(8); i < n; i++) not_taken[!taken.empty() && r.Chance(1, 2) ? std::next(taken.begin(), r.Below(taken.size()))->first.first : w.From(r)] = 1 + r.Mag(r.PickOf({4, 10, 33}));
  for (auto &[b, c] : taken) fr.taken_branch_counters[{b.first, b.second}] = c;
  for (auto &[b, c] : not_taken) fr.not_taken_branch_counters[{b}] = c;
  int how = r.Below(3);
  int isize = 0;  // unknown
  afdo::PropellerStats given;
  given.profile_stats.br_counters_accumulated = 7;
  std::unique_ptr<afdo::FrequenciesBranchAggregator> agg;
  if (how == 0) { agg = std::make_unique<afdo::FrequenciesBranchAggregator>(fr, *s.content, given); isize = s.prog.arm ? 4 : 0; }
  else if (how == 1) { isize = r.PickOf({1, 2, 4}); agg = std::make_unique<afdo::FrequenciesBranchAggregator>(fr, given, isize); }
  else agg = std::make_unique<afdo::FrequenciesBranchAggregator>(fr, given);
  // What goes into and out of each block.
  struct Wt { int64_t in = 0, out = 0; bool known = false; int64_t fall = 0; };
  std::map<int, Wt> wt;
  if (isize) {
    auto last = [&](uint64_t a) {
      int h = w.Find(a, false);
      return h >= 0 && w.B(w.handles[h]).end() - isize == a ? h : -1;
    };
    for (auto &[b, c] : taken) { int h = last(b.first); if (h >= 0) { wt[h].known = true; wt[h].fall = 0; } }
    for (auto &[a, c] : not_taken) { int h = last(a); if (h >= 0) { wt[h].known = true; wt[h].fall = c; } }
  }
  for (auto &[b, c] : taken) {
    int f = w.Find(b.first, false), t = w.Find(b.second, true);
    if (f >= 0) wt[f].out += c;
    if (t >= 0) wt[t].in += c;
  }
  std::map<std::pair<uint64_t, uint64_t>, int64_t> want;
  for (auto it = wt.begin(); it != wt.end(); ++it) {
    auto &[h, x] = *it;
    int64_t fall = x.known ? x.fall : x.in - x.out;
    if (fall <= 0) continue;
    auto nx = std::next(it);
    int end = -1, next = nx == wt.end() ? h + 1 : nx->first;
    if (next < static_cast<int>(w.handles.size())) {
      if (w.Falls(h, next)) end = next;
      else if (w.Falls(h, h + 1)) end = h + 1;
    }
    if (nx != wt.end() && end == nx->first) nx->second.in += fall;
    if (end >= 0) want[{w.B(w.handles[h]).addr, w.B(w.handles[end]).addr}] += fall;
  }
  std::set<uint64_t> ends;
  for (auto &[b, c] : taken) { ends.insert(b.first); ends.insert(b.second); }
  for (auto &[a, c] : not_taken) ends.insert(a);
  auto got_ends = agg->GetBranchEndpointAddresses();
  ctx.Check(got_ends.ok() && std::set<uint64_t>(got_ends->begin(), got_ends->end()) == ends, "branch end points", [&] { return got_ends.ok() ? std::to_string(got_ends->size()) : std::string(got_ends.status().message()); });
  for (int round = 0; round < 2; round++) {
    afdo::PropellerStats st;
    auto a = agg->Aggregate(*s.mapper, st);
    if (!ctx.Check(a.ok(), "aggregation", [&] { return std::string(a.status().message()); })) return;
    std::map<std::pair<uint64_t, uint64_t>, int64_t> br, ft;
    for (auto &[b, c] : a->branch_counters) br[{b.from, b.to}] = c;
    for (auto &[b, c] : a->fallthrough_counters) ft[{b.from, b.to}] = c;
    auto show = [](auto &m) { std::string x; for (auto &[b, c] : m) x += " " + Hex(b.first) + ">" + Hex(b.second) + ":" + std::to_string(c); return x; };
    if (!ctx.Check(br == taken, "branches kept", [&] { return show(br) + " instead of" + show(taken); })) return;
    if (!ctx.Check(ft == want, "fall-throughs inferred", [&] {
          std::string nt;
          for (auto &[b, c] : not_taken) nt += " " + Hex(b) + ":" + std::to_string(c);
          return show(ft) + " instead of" + show(want) + " from" + show(taken) + " not" + nt + " isize " + std::to_string(isize) + " in" + w.Show();
        }))
      return;
    ctx.Check(st.profile_stats.br_counters_accumulated == 7, "statistics passed on", [&] { return std::to_string(st.profile_stats.br_counters_accumulated); });
    auto un = a->GetUniqueAddresses();
    std::set<uint64_t> u;
    for (auto *m : {&taken, &want}) for (auto &[b, c] : *m) { u.insert(b.first); u.insert(b.second); }
    ctx.Check(std::set<uint64_t>(un.begin(), un.end()) == u, "unique addresses", [&] { return std::to_string(un.size()) + " instead of " + std::to_string(u.size()); });
  }
  uint64_t hash = 1;
  for (auto &[b, c] : want) hash = Mix(Mix(Mix(hash, b.first), b.second), c);
  if (!want.empty()) ctx.Nontrivial(hash);
  ctx.Count("fallthroughs", want.size());
  unlink(s.prog.path.c_str());
}


VPROP(C24) {
  Rng &r = ctx.rng;
  Setup s;
  ProgOptions o;
  o.awkward = r.Chance(1, 4);
  MakeSetup(ctx, &s, o, r.Chance(1, 6));
  if (!s.ok) { unlink(s.prog.path.c_str()); return; }
  auto &w = s.model;
  std::map<std::pair<uint64_t, uint64_t>, int64_t> br, ft;
  int big = r.PickOf({4, 10, 24});
  bool clean = r.Chance(1, 2);  // no branches into the middle of blocks
  for (int i = 0, n = r.Below(25); i < n; i++) {
    uint64_t f = w.From(r), t = w.Addr(r);
    if (!w.handles.empty() && (clean || r.Chance(7, 8))) t = w.B(w.handles[r.Below(w.handles.size())]).addr;
    int h = w.Find(f, false);
    if (clean && h >= 0 && !w.B(w.handles[h]).ret) {  // Jumps stay within the function and calls enter one.
      auto &to = s.prog.funcs[r.Chance(1, 2) || w.sel.empty() ? w.handles[h].f : *std::next(w.sel.begin(), r.Below(w.sel.size()))];
      t = &to == &s.prog.funcs[w.handles[h].f] ? to.bbs[r.Below(to.bbs.size())].addr : to.addr;
    }
    br[{f, t}] += 1 + r.Mag(big);
  }
  for (int i = 0, n = r.Below(10); i < n; i++) {
    uint64_t f = w.Addr(r), t = w.From(r);
    if (!w.handles.empty() && r.Chance(2, 3)) {
      int a = r.Below(w.handles.size()), b = std::min<int>(w.handles.size() - 1, a + r.Below(4));
      f = w.B(w.handles[a]).addr; t = w.B(w.handles[b]).addr + r.Below(w.B(w.handles[b]).size + 1);
    }
    ft[{f, t}] += 1 + r.Mag(big);
  }
  if (r.Chance(1, 80))  // Many jumps that have nothing to do with the binary.
    for (int i = 0, n = 1900 + r.Below(r.Chance(1, 2) ? 300 : 9000); i < n; i++) br[{(1ull << 50) + i, 1ull << 51}] = 1;
  // One profile, or its halves one after the other.
  using Counts = std::map<std::pair<uint64_t, uint64_t>, int64_t>;
  Counts part_br[2], part_ft[2];
  bool halves = r.Chance(1, 3);
  for (auto &[b, c] : br) {
    if (!halves) { part_br[0][b] = c; continue; }
    int64_t x = r.Chance(1, 3) ? r.Below(c + 1) : r.Chance(1, 2) ? c : 0;
    if (x) part_br[0][b] = x;
    if (c - x) part_br[1][b] = c - x;
  }
  for (auto &[b, c] : ft) part_ft[halves && r.Chance(1, 2)][b] = c;
  afdo::PropellerStats st;
  std::unique_ptr<afdo::ProgramCfg> result;
  CfgModel m;
  for (int k = 0; k <= halves; k++) {
    m.dubious = m.branch_weight = m.recorded = 0;
    int64_t before = m.total;
    m.Add(w, part_br[k], part_ft[k]);
    int64_t weight = before + m.branch_weight;
    bool want_ok = !(weight && m.dubious / static_cast<double>(weight) > 0.3) && !(m.dubious && !weight) && !(m.recorded && m.edges_created / static_cast<double>(m.recorded) < 0.0005);
    afdo::BranchAggregation agg;
    for (auto &[b, c] : part_br[k]) agg.branch_counters[{b.first, b.second}] = c;
    for (auto &[b, c] : part_ft[k]) agg.fallthrough_counters[{b.first, b.second}] = c;
    auto res = afdo::ProgramCfgBuilder(s.mapper.get(), st, std::move(result)).Build(agg, nullptr);
    if (!ctx.Check(res.ok() == want_ok, "profile accepted", [&] { return (res.ok() ? std::string("accepted") : std::string(res.status().message())) + " dubious " + std::to_string(m.dubious) + " of " + std::to_string(weight) + " edges " + std::to_string(m.edges_created) + " of " + std::to_string(m.recorded); })) return;
    if (!res.ok()) { ctx.Count("rejected"); unlink(s.prog.path.c_str()); return; }
    result = std::move(*res);
  }
  auto *res = &result;
  // Edges as they are, their kinds among the possible ones.
  std::map<EdgeKey, std::pair<int64_t, int>> got;
  auto cfgs = (*res)->GetCfgs();
  std::set<int> present;
  uint64_t hash = 2;
  int64_t kinds[3] = {}, weights[3] = {};
  for (auto *c : cfgs) {
    int f = c->function_index();
    present.insert(f);
    auto &pf = s.prog.funcs[f];
    std::vector<std::string> names;
    for (auto &n : c->names()) names.push_back(n.str());
    bool same = w.sel.count(f) && names == pf.names && c->section_name().str() == pf.OutSec() && c->nodes().size() == pf.bbs.size() && !c->module_name().has_value() && c->clone_paths().empty();
    for (size_t i = 0; same && i < pf.bbs.size(); i++) {
      auto &n = *c->nodes()[i];
      auto &b = pf.bbs[i];
      same = n.addr() == b.addr && n.size() == static_cast<int64_t>(b.size) && n.bb_id() == static_cast<int64_t>(b.id) && n.bb_index() == static_cast<int>(i) && n.node_index() == static_cast<int>(i) && n.clone_number() == 0 && n.function_index() == f &&
             n.has_return() == b.ret && n.has_tail_call() == b.tail && n.is_landing_pad() == b.pad && n.can_fallthrough() == b.ft && n.has_indirect_branch() == b.ind;
      if (!same) ctx.Fail("block of a graph", Hex(n.addr()) + " instead of " + Hex(b.addr));
    }
    if (!ctx.Check(same, "graph of a function", [&] { return std::to_string(f) + " " + c->section_name().str(); })) return;
    for (auto *es : {&c->intra_edges(), &c->inter_edges()})
      for (auto &e : *es) {
        H a{e->src()->function_index(), e->src()->bb_index()}, b{e->sink()->function_index(), e->sink()->bb_index()};
        int k = e->IsCall() ? 1 : e->IsReturn() ? 2 : 0;
        if (!ctx.Check(a.f == f && (es == &c->intra_edges()) == (a.f == b.f) && !got.count({a, b}), "edge in its place", [&] { return std::to_string(a.f) + "#" + std::to_string(a.b) + ">" + std::to_string(b.f) + "#" + std::to_string(b.b); })) return;
        got[{a, b}] = {e->weight(), k};
        bool is = s.prog.funcs[a.f].OutSec() != s.prog.funcs[b.f].OutSec();
        ctx.Check(e->inter_section() == is, "edge between sections", [&] { return std::to_string(a.f) + ">" + std::to_string(b.f); });
        auto has = [&](const std::vector<afdo::CFGEdge *> &v) { return std::count(v.begin(), v.end(), e.get()); };
        bool intra = a.f == b.f;
        ctx.Check(has(intra ? e->src()->intra_outs() : e->src()->inter_outs()) == 1 && has(intra ? e->sink()->intra_ins() : e->sink()->inter_ins()) == 1, "edge known at both ends", [&] { return std::to_string(a.f) + ">" + std::to_string(b.f); });
        hash = Mix(Mix(Mix(hash, a.f * 100 + a.b), b.f * 100 + b.b), e->weight());
        ctx.Count("edges");
      }
  }
  auto show = [](const H &a, const H &b) { return std::to_string(a.f) + "#" + std::to_string(a.b) + ">" + std::to_string(b.f) + "#" + std::to_string(b.b); };
  for (auto &[k, e] : m.edges) {
    auto it = got.find(k);
    if (!ctx.Check(it != got.end() && it->second.first == e.weight && e.kinds.count(it->second.second), "edges of the profile", [&] {
          std::string x;
          for (auto &[b, c] : br) x += " " + Hex(b.first) + ">" + Hex(b.second) + ":" + std::to_string(c);
          for (auto &[b, c] : ft) x += " " + Hex(b.first) + ".." + Hex(b.second) + ":" + std::to_string(c);
          return show(k.first, k.second) + (it == got.end() ? " missing" : " weight " + std::to_string(it->second.first) + " kind " + std::to_string(it->second.second)) + ", expected " + std::to_string(e.weight) + " kind " + std::to_string(*e.kinds.begin()) + " from" + x + " in" + w.Show();
        }))
      return;
    kinds[it->second.second]++;
  }
  if (!ctx.Check(got.size() == m.edges.size(), "no other edges", [&] { return std::to_string(got.size()) + " instead of " + std::to_string(m.edges.size()); })) return;
  std::set<int> hot;
  int n_hot = 0, n_empty = 0, n_pads = 0;
  for (int f : w.sel) {
    bool pad = false;
    for (size_t b = 0; b < s.prog.funcs[f].bbs.size(); b++) {
      int64_t q = CfgModel::Freq(got, {f, static_cast<int>(b)});
      if (present.count(f)) {
        auto *c = (*res)->GetCfgByIndex(f);
        if (!ctx.Check(c && c->nodes()[b]->CalculateFrequency() == q && c->GetNodeFrequencies()[b] == q, "block frequency", [&] { return std::to_string(f) + "#" + std::to_string(b) + " " + std::to_string(c->nodes()[b]->CalculateFrequency()) + " instead of " + std::to_string(q); })) return;
      }
      if (!q) continue;
      hot.insert(f);
      n_hot++;
      n_empty += !s.prog.funcs[f].bbs[b].size;
      if (s.prog.funcs[f].bbs[b].pad) pad = true;
    }
    n_pads += pad;
  }
  ctx.Check(present == hot, "functions with graphs", [&] { return std::to_string(present.size()) + " instead of " + std::to_string(hot.size()); });
  auto &cs = st.cfg_stats;
  size_t nodes = w.handles.size();
  if (!halves) ctx.Check(cs.cfgs_created == w.sel.size() && cs.nodes_created == nodes && cs.hot_basic_blocks == n_hot && cs.hot_empty_basic_blocks == n_empty && cs.cfgs_with_hot_landing_pads == n_pads &&
                cs.total_edge_weight_created() == m.total && cs.total_edges_created() == static_cast<int64_t>(m.edges.size()), "statistics of the graphs",
            [&] { return cs.DebugString() + " blocks " + std::to_string(n_hot) + " weight " + std::to_string(m.total); });
  for (int k = 0; k < 3 && !halves; k++) {
    auto it = cs.edges_created_by_kind.find(static_cast<afdo::CFGEdge::Kind>(k));
    int64_t n = it == cs.edges_created_by_kind.end() ? 0 : it->second;
    ctx.Check(n == kinds[k], "edges by kind", [&] { return std::to_string(k) + ": " + std::to_string(n) + " instead of " + std::to_string(kinds[k]); });
  }
  if (!got.empty()) ctx.Nontrivial(hash);
  ctx.Sample([&] { std::string x; for (auto &[k, e] : got) x += " " + show(k.first, k.second) + ":" + std::to_string(e.first) + "BCR"[e.second]; return x; });
  unlink(s.prog.path.c_str());
}
