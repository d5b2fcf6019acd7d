// link: core prop
// Progress, telemetry and statistics (C31); options and inputs of Propeller, lazy evaluation (C32).
#include <google/protobuf/util/message_differencer.h>

#include "absl_shim.h"
#include "lazy_evaluator.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_formatting.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_options_builder.h"
#include "llvm_propeller_profile_computer.h"
#include "llvm_propeller_profile_generator.h"
#include "llvm_propeller_telemetry_reporter.h"
#include "status_consumer_registry.h"
#include "status_provider.h"
#include "vrun.h"

using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
// A tree of jobs and what it must report.
struct Job {
  std::string name;
  int weight = 1, progress = 0, total = 0;
  bool leaf = true;
  std::vector<std::unique_ptr<Job>> kids;
  afdo::StatusProvider *real = nullptr;
  afdo::DefaultStatusProvider *real_leaf = nullptr;
  bool Done() const { return leaf ? progress >= 100 : std::all_of(kids.begin(), kids.end(), [](auto &k) { return k->Done(); }); }
  // Between all earlier jobs and all jobs counted, in percent of the weight.
  double Lo() const {
    if (leaf) return progress;
    if (kids.empty()) return 100;
    double s = 0;
    for (auto &k : kids) { if (!k->Done()) { s += k->weight * k->Lo(); break; } s += k->weight * 100.0; }
    return s / total;
  }
  double Hi() const {
    if (leaf) return progress;
    if (kids.empty()) return 100;
    double s = 0;
    for (auto &k : kids) s += k->weight * (k->Done() ? 100.0 : k->Hi());
    return s / total;
  }
  std::string Name() const {
    for (auto &k : kids) if (!k->Done()) return name + " - " + k->Name();
    return name;
  }
  int Depth() const { int d = 0; for (auto &k : kids) d = std::max(d, k->Depth()); return d + 1; }
};
std::unique_ptr<afdo::StatusProvider> Make(Rng &r, Job *j, int depth, std::vector<Job *> *leaves, std::vector<Job *> *all) {
  j->name = "job" + std::to_string(all->size());
  all->push_back(j);
  if (depth > 0 && r.Chance(depth, depth + 1)) {
    j->leaf = false;
    auto m = std::make_unique<afdo::MultiStatusProvider>(j->name);
    for (int i = 0, n = r.In(depth > 2 ? 1 : 0, 4); i < n; i++) {
      j->kids.push_back(std::make_unique<Job>());
      Job *k = j->kids.back().get();
      k->weight = r.PickOf<int>({1, 2, 10, 50, 500, 1 + static_cast<int>(r.Below(10000))});
      j->total += k->weight;
      m->AddStatusProvider(k->weight, Make(r, k, depth - 1, leaves, all));
    }
    j->real = m.get();
    return m;
  }
  auto d = std::make_unique<afdo::DefaultStatusProvider>(j->name);
  j->real = j->real_leaf = d.get();
  leaves->push_back(j);
  return d;
}
void SetAll(Job *j) {
  if (j->leaf) j->progress = 100;
  for (auto &k : j->kids) SetAll(k.get());
}
}  // namespace

static void Progress(Ctx &ctx) {
  Rng &r = ctx.rng;
  Job root;
  std::vector<Job *> leaves, all;
  auto owner = Make(r, &root, r.In(1, 3), &leaves, &all);
  bool in_order = r.Chance(1, 2);
  std::map<Job *, int> last;
  uint64_t h = all.size();
  size_t at = 0;
  for (int step = 0, n = r.In(3, 25); step < n; step++) {
    for (Job *j : all) {
      int got = j->real->GetProgress();
      double lo = j->Lo() - j->Depth(), hi = (in_order ? j->Lo() : j->Hi()) + 1;
      auto show = [&] { return j->name + " of " + root.name + ": " + std::to_string(got) + " instead of " + std::to_string(j->Lo()); };
      ctx.Check(got >= 0 && got <= 100, "progress outside its range", show);
      ctx.Check(got >= lo && got <= hi, "progress", show);
      ctx.Check(got >= last[j], "progress goes back", show);
      ctx.Check(j->real->IsDone() == j->Done() && (!j->Done() || got == 100), "done", show);
      ctx.Check(j->real->GetJob() == j->Name(), "job", [&] { return j->real->GetJob() + " instead of " + j->Name(); });
      last[j] = got;
      h = Mix(h, got);
    }
    ctx.Count("states");
    if (leaves.empty()) break;
    Job *j = in_order ? leaves[at] : r.Pick(leaves);
    if (r.Chance(1, 12) && !in_order) {
      Job *k = r.Pick(all);
      k->real->SetDone();
      SetAll(k);
    } else if (r.Chance(1, 3)) {
      j->real->SetDone();
      j->progress = 100;
    } else {
      j->progress = std::min<int>(100, j->progress + r.Below(60));
      j->real_leaf->SetProgress(j->progress);
    }
    while (in_order && at + 1 < leaves.size() && leaves[at]->progress >= 100) at++;
  }
  if (!leaves.empty()) ctx.Nontrivial(h);
  ctx.Sample([&] { return std::to_string(all.size()) + " jobs, " + root.real->GetJob() + " at " + std::to_string(root.real->GetProgress()); });
}

namespace {
// All numbers of the statistics, named.
std::map<std::string, double> Flat(const afdo::PropellerStats &s) {
  std::map<std::string, double> m;
  auto &c = s.code_layout_stats;
  m["original_intra_score"] = c.original_intra_score; m["optimized_intra_score"] = c.optimized_intra_score;
  m["original_inter_score"] = c.original_inter_score; m["optimized_inter_score"] = c.optimized_inter_score;
  for (auto &[k, v] : c.n_assemblies_by_merge_order) m["merge" + std::to_string(static_cast<int>(k))] = v;
  m["n_single_node_chains"] = c.n_single_node_chains; m["n_multi_node_chains"] = c.n_multi_node_chains;
  auto st = [&](const std::string &n, auto &x) { m[n + "a"] = x.absolute; m[n + "w"] = x.weighted; };
  st("could_not", s.disassembly_stats.could_not_disassemble);
  st("may", s.disassembly_stats.may_affect_control_flow);
  st("cant", s.disassembly_stats.cant_affect_control_flow);
  m["mmaps"] = s.profile_stats.binary_mmap_num; m["files"] = s.profile_stats.perf_file_parsed; m["br"] = s.profile_stats.br_counters_accumulated;
  auto &g = s.cfg_stats;
  m["same"] = g.edges_with_same_src_sink_but_different_type; m["cfgs"] = g.cfgs_created; m["pads"] = g.cfgs_with_hot_landing_pads;
  m["nodes"] = g.nodes_created; m["hot"] = g.hot_basic_blocks; m["empty"] = g.hot_empty_basic_blocks;
  for (auto &[k, v] : g.edges_created_by_kind) m["edges" + std::to_string(static_cast<int>(k))] = v;
  for (auto &[k, v] : g.total_edge_weight_by_kind) m["weight" + std::to_string(static_cast<int>(k))] = v;
  auto &b = s.bbaddrmap_stats;
  m["dup"] = b.duplicate_symbols; m["nosym"] = b.bbaddrmap_function_does_not_have_symtab_entry; m["hotf"] = b.hot_functions;
  auto &l = s.cloning_stats;
  m["paths"] = l.paths_cloned; m["bbs"] = l.bbs_cloned; m["bytes"] = l.bytes_cloned; m["gain"] = l.score_gain;
  return m;
}
afdo::PropellerStats RandomStats(Rng &r) {
  afdo::PropellerStats s;
  auto n = [&]() -> int { return r.Chance(1, 4) ? 0 : r.Mag(20); };
  auto &c = s.code_layout_stats;
  c.original_intra_score = n(); c.optimized_intra_score = n(); c.original_inter_score = n(); c.optimized_inter_score = n();
  for (int i = 0; i < 5; i++) if (r.Chance(1, 2)) c.n_assemblies_by_merge_order[static_cast<afdo::ChainMergeOrder>(i)] = n();
  c.n_single_node_chains = n(); c.n_multi_node_chains = n();
  for (auto *x : {&s.disassembly_stats.could_not_disassemble, &s.disassembly_stats.may_affect_control_flow, &s.disassembly_stats.cant_affect_control_flow})
    for (int i = r.Below(4); i > 0; i--) x->Increment(n());
  s.profile_stats.binary_mmap_num = n(); s.profile_stats.perf_file_parsed = n(); s.profile_stats.br_counters_accumulated = n();
  auto &g = s.cfg_stats;
  g.edges_with_same_src_sink_but_different_type = n(); g.cfgs_created = n(); g.cfgs_with_hot_landing_pads = n(); g.nodes_created = n();
  g.hot_basic_blocks = n(); g.hot_empty_basic_blocks = n();
  for (auto k : {afdo::CFGEdge::Kind::kBranchOrFallthough, afdo::CFGEdge::Kind::kCall, afdo::CFGEdge::Kind::kRet}) {
    if (r.Chance(1, 2)) g.edges_created_by_kind[k] = n();
    if (r.Chance(1, 2)) g.total_edge_weight_by_kind[k] = n();
  }
  auto &b = s.bbaddrmap_stats;
  b.duplicate_symbols = n(); b.bbaddrmap_function_does_not_have_symtab_entry = n(); b.hot_functions = n();
  auto &l = s.cloning_stats;
  l.paths_cloned = n(); l.bbs_cloned = n(); l.bytes_cloned = n(); l.score_gain = n();
  return s;
}
std::string ShowDiff(const std::map<std::string, double> &a, const std::map<std::string, double> &b) {
  for (auto *m : {&a, &b})
    for (auto &[k, v] : *m) {
      double x = a.count(k) ? a.at(k) : 0, y = b.count(k) ? b.at(k) : 0;
      if (x != y) return k + " is " + std::to_string(x) + " instead of " + std::to_string(y);
    }
  return "";
}
void Statistics(Ctx &ctx) {
  Rng &r = ctx.rng;
  afdo::PropellerStats sum;
  std::map<std::string, double> want = Flat(sum);
  uint64_t h = 1;
  for (int i = 0, n = r.In(1, 4); i < n; i++) {
    auto s = RandomStats(r);
    for (auto &[k, v] : Flat(s)) { want[k] += v; h = Mix(h, static_cast<uint64_t>(v)); }
    sum += s;
  }
  std::string d = ShowDiff(Flat(sum), want);
  ctx.Check(d.empty(), "sum of statistics", [&] { return d; });
  int64_t e = 0, w = 0;
  for (auto &[k, v] : want) { if (!k.compare(0, 5, "edges")) e += v; if (!k.compare(0, 6, "weight")) w += v; }
  ctx.Check(sum.cfg_stats.total_edges_created() == e && sum.cfg_stats.total_edge_weight_created() == w, "totals of statistics", [&] { return std::to_string(sum.cfg_stats.total_edges_created()) + " " + std::to_string(sum.cfg_stats.total_edge_weight_created()); });
  std::string text = sum.DebugString();
  auto &cl = sum.code_layout_stats;
  for (auto [what, from, to] : {std::tuple<const char *, double, double>{"inter", cl.original_inter_score, cl.optimized_inter_score}, {"intra", cl.original_intra_score, cl.optimized_intra_score}}) {
    if (!(from > 0) || !(to >= 0)) continue;
    size_t at = text.find(std::string("Changed ") + what + "-function");
    double pct = 0, x = 0, y = 0;
    if (at == std::string::npos || sscanf(text.c_str() + at, "Changed int%*2[ear]-function (ext-tsp) score by %lf%% from %lf to %lf", &pct, &x, &y) != 3) continue;
    auto near = [](double a, double b, double eps) { return std::abs(a - b) <= eps + 1e-9 * std::abs(b); };
    ctx.Check(near(x, from, 1e-5) && near(y, to, 1e-5) && near(pct, (to - from) * 100 / from, 0.0501), "change of the score in the report", [&] { return std::string(what) + " " + std::to_string(from) + " to " + std::to_string(to) + " in " + text; });
    ctx.Count("score_changes");
  }
  for (const char *k : {"mmaps", "files", "br", "cfgs", "nodes", "hot", "empty", "hotf", "n_single_node_chains", "n_multi_node_chains", "mays", "paths", "bbs", "bytes"}) {
    if (!want.count(k)) continue;
    std::string num = std::to_string(static_cast<int64_t>(want[k]));
    ctx.Check(text.find(num) != std::string::npos, "number missing in the report", [&] { return std::string(k) + " " + num + " in " + text; });
  }
  ctx.Nontrivial(h);
  ctx.Count("sums");
}

// One consumer looks at the status at chosen moments of Propeller's run.
struct Moments : afdo::StatusConsumer {
  afdo::StatusProvider *p = nullptr;
  int starts = 0, stops = 0;
  std::vector<int> seen;
  void Start(afdo::StatusProvider &q) override { p = &q; starts++; Look(); }
  void Stop() override { Look(); p = nullptr; stops++; }
  void Look() { if (p) seen.push_back(p->GetProgress()); }
};
Moments *TheMoments() {
  static Moments *m = [] {
    auto u = std::make_unique<Moments>();
    Moments *x = u.get();
    afdo::StatusConsumerRegistry::GetInstance().Register(std::move(u));
    return x;
  }();
  return m;
}
// Gives perf data out of memory.
struct Provider : afdo::PerfDataProvider {
  std::vector<std::string> files;
  size_t at = 0;
  std::vector<int> *progress = nullptr;
  absl::StatusOr<std::optional<BufferHandle>> GetNext() override {
    if (TheMoments()->p && progress) progress->push_back(TheMoments()->p->GetProgress());
    if (at == files.size()) return std::optional<BufferHandle>();
    BufferHandle h;
    h.description = "f" + std::to_string(at);
    h.buffer = llvm::MemoryBuffer::getMemBufferCopy(files[at++]);
    return std::optional<BufferHandle>(std::move(h));
  }
  absl::StatusOr<std::vector<BufferHandle>> GetAllAvailableOrNext() override {
    std::vector<BufferHandle> v;
    ASSIGN_OR_RETURN(auto x, GetNext());
    if (x) v.push_back(std::move(*x));
    return v;
  }
};
std::string RandomId(Rng &r) {
  std::string s;
  for (int i = 0; i < 20; i++) s += static_cast<char>(r.Below(256));
  return s;
}
void Pipeline(Ctx &ctx) {
  Rng &r = ctx.rng;
  ProgOptions po;
  po.max_funcs = 4;
  po.build_id = RandomId(r);
  Prog p = GenProg(ctx, po);
  bool spe = p.arm && r.Chance(1, 2);
  Run u = GenRun(ctx, p, po.build_id, 10, spe);
  afdo::PropellerOptions o;
  o.set_binary_name(r.Chance(1, 10) ? ctx.Tmp("missing") : p.path);
  o.set_cluster_out_name(ctx.Tmp("cc"));
  o.set_symbol_order_out_name(ctx.Tmp("ld"));
  bool http = r.Chance(2, 3);
  if (http) o.set_http(true);
  else if (r.Chance(1, 2)) o.set_http(false);
  Moments *m = TheMoments();
  m->starts = m->stops = 0;
  m->seen.clear();
  afdo::UnregisterAllPropellerTelemetryReportersForTest();
  struct Report { int who; std::map<std::string, double> stats; std::string binary; int progress; bool written; };
  std::vector<Report> reports;
  int nr = r.Below(4);
  for (int i = 0; i < nr; i++)
    afdo::RegisterPropellerTelemetryReporter([&, i](const afdo::BinaryContent &b, const afdo::PropellerStats &s) {
      reports.push_back({i, Flat(s), b.file_name, m->p ? m->p->GetProgress() : -1, FileExists(ctx.Tmp("cc"))});
    });
  auto prov = std::make_unique<Provider>();
  std::vector<int> during;
  prov->progress = &during;
  size_t n = u.samples.size(), at = r.Below(n + 1);
  prov->files = {u.File(0, at), u.File(at, n, false)};
  afdo::ProfileType type = r.Chance(1, 10) ? r.PickOf({afdo::PROFILE_TYPE_UNSPECIFIED, afdo::FREQUENCIES_PROTO}) : spe ? afdo::PERF_SPE : afdo::PERF_LBR;
  bool supported = type == afdo::PERF_SPE || type == afdo::PERF_LBR;
  auto st = afdo::GeneratePropellerProfiles(o, std::move(prov), type);
  afdo::UnregisterAllPropellerTelemetryReportersForTest();
  auto show = [&] { std::string s; for (int x : m->seen) s += " " + std::to_string(x); return st.ToString() + ";" + s; };
  ctx.Check(!st.ok() || supported, "unsupported profile type accepted", show);
  int want = http && supported;
  ctx.Check(m->starts == want && m->stops == want, "consumer is started and stopped once if asked for", [&] { return std::to_string(m->starts) + " " + std::to_string(m->stops) + " " + show(); });
  if (want) {
    ctx.Check(m->seen.front() == 0, "progress at the start", show);
    ctx.Check((m->seen.back() == 100) == st.ok(), "progress at the end", show);
    // The binary has been read, the profile not.
    for (int x : during) ctx.Check(x > 0 && x < 100, "progress while reading profiles", [&] { return std::to_string(x); });
  }
  ctx.Check(reports.size() == (st.ok() ? nr : 0), "every reporter is called once", [&] { return std::to_string(reports.size()) + " of " + std::to_string(nr) + " " + show(); });
  for (size_t i = 0; i < reports.size(); i++) {
    auto &x = reports[i];
    ctx.Check(x.who == static_cast<int>(i) && x.binary == p.path && x.written && (!want || x.progress == 100) && x.stats == reports[0].stats, "report", [&] { return std::to_string(x.who) + " " + x.binary + " " + std::to_string(x.progress); });
    ctx.Check(x.stats["br"] == u.events || spe, "reported statistics", [&] { return std::to_string(x.stats["br"]) + " branches instead of " + std::to_string(u.events); });
    ctx.Check(spe || x.stats["files"] == 2, "reported statistics", [&] { return std::to_string(x.stats["files"]) + " files"; });
  }
  // The statistics of a run are those of its parts, added up.
  if (st.ok() && !reports.empty() && type == afdo::PERF_LBR) {
    auto prov2 = std::make_unique<Provider>();
    prov2->files = {u.File(0, at), u.File(at, n, false)};
    auto bc = afdo::GetBinaryContent(p.path);
    afdo::PropellerStats s1, s2, s3, s4, sum;
    auto parts = [&]() -> absl::Status {
      if (!bc.ok()) return bc.status();
      afdo::LbrBranchAggregator agg(std::make_unique<afdo::PerfLbrAggregator>(std::move(prov2)), o, **bc);
      ASSIGN_OR_RETURN(auto hot, agg.GetBranchEndpointAddresses());
      ASSIGN_OR_RETURN(auto mapper, afdo::BuildBinaryAddressMapper(o, **bc, s1, &hot));
      ASSIGN_OR_RETURN(auto data, agg.Aggregate(*mapper, s2));
      ASSIGN_OR_RETURN(auto cfg, afdo::ProgramCfgBuilder(mapper.get(), s3).Build(data, std::move((*bc)->file_content), nullptr));
      afdo::GenerateLayoutBySection(*cfg, o.code_layout_params(), s4.code_layout_stats);
      return absl::OkStatus();
    };
    auto ps = parts();
    if (ctx.Check(ps.ok(), "parts of a run fail", [&] { return ps.ToString(); })) {
      for (auto *x : {&s1, &s2, &s3, &s4}) sum += *x;
      auto want_stats = Flat(sum);
      std::string diff;
      for (auto &[k, v] : want_stats) { double g = reports[0].stats.count(k) ? reports[0].stats[k] : -1; if (std::abs(g - v) > 1e-9 * (std::abs(v) + 1)) diff += " " + k + " " + std::to_string(g) + " instead of " + std::to_string(v); }
      ctx.Check(diff.empty() && want_stats.size() == reports[0].stats.size(), "reported statistics", [&] { return diff; });
      ctx.Count("statistics_of_runs");
    }
  }
  ctx.Count("reports", reports.size());
  ctx.Count("runs");
  if (st.ok()) ctx.Nontrivial(Mix(HashStr(ReadFile(ctx.Tmp("cc"))), nr * 2 + http));
  for (auto &f : {p.path, ctx.Tmp("cc"), ctx.Tmp("ld")}) unlink(f.c_str());
}
}  // namespace

namespace {
// Numbers, addresses and edges in messages.
void Formatting(Ctx &ctx) {
  Rng &r = ctx.rng;
  for (int k = 0; k < 20; k++) {
    uint64_t v = r.Chance(1, 8) ? 0 : r.Chance(1, 4) ? 1000 * r.Mag(54) : r.Mag(64);
    std::string d = std::to_string(v), want;
    for (size_t i = 0; i < d.size(); i++) { if (i && (d.size() - i) % 3 == 0) want += ','; want += d[i]; }
    std::ostringstream a, b;
    if (r.Chance(1, 2)) a << std::hex << std::showbase;
    a << afdo::CommaStyleNumberFormatter(v);
    ctx.Check(a.str() == want, "number in a message", [&] { return d + " as " + a.str(); });
    b << 12 << ' ' << afdo::AddressFormatter(v) << ' ' << 12;
    std::string hex = v ? Hex(v) : "0";
    ctx.Check(b.str() == "12 " + hex + " 12", "address in a message", [&] { return hex + " in " + b.str(); });
  }
  ctx.Count("formatted", 40);
}
}  // namespace

VPROP(C31) {
  if (ctx.rng.Chance(1, 4)) Formatting(ctx);
  switch (ctx.rng.Below(4)) {
    case 0: Statistics(ctx); break;
    case 1: Pipeline(ctx); break;
    default: Progress(ctx); break;
  }
}

namespace {
template <class B, class M> struct Setter { std::string name; std::function<void(Rng &, B *, M *)> fn; };
std::string Text(Rng &r) { std::string s; for (int i = r.Below(6); i > 0; i--) s += r.PickOf({'a', '/', ' ', '\0', '\xc3', 'z'}); if (r.Chance(1, 2)) s = "n" + std::to_string(r.Below(1000)); return s; }
// The layout parameters, by the name of their field.
template <class B> std::vector<Setter<B, afdo::PropellerCodeLayoutParameters>> LayoutSetters();
#define U32(Pre, Cc, field) {#field, [](Rng &r, auto *b, auto *m) { uint32_t v = r.Mag(32); b->Set##Pre##Cc(v); SetField(m, #field, v); }}
#define BOOL(Pre, Cc, field) {#field, [](Rng &r, auto *b, auto *m) { bool v = r.Chance(1, 2); b->Set##Pre##Cc(v); SetField(m, #field, v); }}
#define LAYOUT(Pre) \
  U32(Pre, FallthroughWeight, fallthrough_weight), U32(Pre, ForwardJumpWeight, forward_jump_weight), U32(Pre, BackwardJumpWeight, backward_jump_weight), \
  U32(Pre, ForwardJumpDistance, forward_jump_distance), U32(Pre, BackwardJumpDistance, backward_jump_distance), BOOL(Pre, ChainSplit, chain_split), \
  U32(Pre, ChainSplitThreshold, chain_split_threshold), BOOL(Pre, CallChainClustering, call_chain_clustering), U32(Pre, ClusterMergeSizeThreshold, cluster_merge_size_threshold), \
  BOOL(Pre, SplitFunctions, split_functions), BOOL(Pre, ReorderHotBlocks, reorder_hot_blocks), BOOL(Pre, InterFunctionReordering, inter_function_reordering)
void SetField(google::protobuf::Message *m, const char *name, uint64_t v) {
  auto *f = m->GetDescriptor()->FindFieldByName(name);
  if (f->cpp_type() == google::protobuf::FieldDescriptor::CPPTYPE_BOOL) m->GetReflection()->SetBool(m, f, v);
  else m->GetReflection()->SetUInt32(m, f, v);
}
void SetField(google::protobuf::Message *m, const char *name, const std::string &v) { m->GetReflection()->SetString(m, m->GetDescriptor()->FindFieldByName(name), v); }
#define STR(Cc, field) {#field, [](Rng &r, auto *b, auto *m) { std::string v = Text(r); b->Set##Cc(v); SetField(m, #field, v); }}

void Builders(Ctx &ctx) {
  Rng &r = ctx.rng;
  using OB = afdo::PropellerOptionsBuilder;
  using PB = afdo::PropellerCodeLayoutParametersBuilder;
  static const std::vector<std::pair<std::string, std::function<void(Rng &, OB *, afdo::PropellerCodeLayoutParameters *)>>> nested = {LAYOUT(CodeLayoutParams)};
  static const std::vector<std::pair<std::string, std::function<void(Rng &, PB *, afdo::PropellerCodeLayoutParameters *)>>> params = {LAYOUT()};
  static const std::vector<std::pair<std::string, std::function<void(Rng &, OB *, afdo::PropellerOptions *)>>> plain = {
      STR(BinaryName, binary_name), STR(ClusterOutName, cluster_out_name), STR(SymbolOrderOutName, symbol_order_out_name), STR(ProfiledBinaryName, profiled_binary_name),
      STR(CfgDumpDirName, cfg_dump_dir_name), BOOL(, IgnoreBuildId, ignore_build_id), BOOL(, VerboseClusterOutput, verbose_cluster_output), BOOL(, Http, http),
      BOOL(, OutputModuleName, output_module_name), BOOL(, FilterNonTextFunctions, filter_non_text_functions)};
  afdo::PropellerOptions want;
  if (r.Chance(1, 3)) { want.set_binary_name("start"); want.add_profile_names("p"); want.mutable_code_layout_params()->set_chain_split(false); }
  OB b = want.ByteSizeLong() ? r.Chance(1, 2) ? OB(want) : OB(afdo::PropellerOptions(want)) : OB();
  std::string did;
  for (int i = 0, n = r.In(1, 12); i < n; i++) {
    switch (r.Below(7)) {
      case 0: case 1: { auto &s = nested[r.Below(nested.size())]; s.second(r, &b, want.mutable_code_layout_params()); did += " " + s.first; break; }
      case 2: case 3: { auto &s = plain[r.Below(plain.size())]; s.second(r, &b, &want); did += " " + s.first; break; }
      case 4: { std::string v = Text(r); b.AddProfileNames(v); want.add_profile_names(v); did += " profile_names"; break; }
      case 5: {
        afdo::InputProfile ip;
        afdo::InputProfileBuilder ib;
        if (r.Chance(2, 3)) { std::string v = Text(r); ib.SetName(v); ip.set_name(v); }
        if (r.Chance(2, 3)) { auto t = static_cast<afdo::ProfileType>(r.Below(4)); ib.SetType(t); ip.set_type(t); }
        b.AddInputProfiles(ib);
        *want.add_input_profiles() = ip;
        did += " input_profiles";
        break;
      }
      case 6: {
        if (r.Chance(1, 2)) { auto v = static_cast<afdo::ClusterEncodingVersion>(r.Below(3)); b.SetClusterOutVersion(v); want.set_cluster_out_version(v); did += " cluster_out_version"; break; }
        afdo::PropellerCodeLayoutParameters q;
        PB pb;
        for (int k = r.Below(6); k > 0; k--) { auto &s = params[r.Below(params.size())]; s.second(r, &pb, &q); did += " ." + s.first; }
        b.SetCodeLayoutParams(pb);
        *want.mutable_code_layout_params() = q;
        break;
      }
    }
    const afdo::PropellerOptions &got = b;
    std::string diff;
    google::protobuf::util::MessageDifferencer md;
    md.ReportDifferencesToString(&diff);
    if (!ctx.Check(md.Compare(want, got), "options builder", [&] { return diff + " after" + did; })) return;
  }
  ctx.Nontrivial(HashStr(want.SerializeAsString()));
  ctx.Count("options_built");
}

void Inputs(Ctx &ctx) {
  Rng &r = ctx.rng;
  ProgOptions po;
  po.max_funcs = 3;
  po.build_id = RandomId(r);
  Prog p = GenProg(ctx, po);
  bool spe = p.arm && r.Chance(1, 2);
  Run u = GenRun(ctx, p, po.build_id, 10, spe);
  std::string perf = ctx.Tmp("perf");
  WriteFile(perf, u.File(0, u.samples.size()));
  afdo::PropellerOptions o;
  o.set_binary_name(p.path);
  o.set_cluster_out_name(ctx.Tmp("cc"));
  // The result with the one right way to ask for it.
  auto run = [&](const afdo::PropellerOptions &x) { unlink(ctx.Tmp("cc").c_str()); auto s = afdo::GeneratePropellerProfiles(x); return std::make_pair(s, s.ok() ? ReadFile(ctx.Tmp("cc")) : ""); };
  afdo::PropellerOptions good = o;
  auto *gp = good.add_input_profiles();
  gp->set_name(perf);
  gp->set_type(spe ? afdo::PERF_SPE : afdo::PERF_LBR);
  auto [gs, gout] = run(good);
  int n = r.Below(4);
  std::set<int> types;
  std::string what;
  for (int i = 0; i < n; i++) {
    auto *x = o.add_input_profiles();
    x->set_name(i || r.Chance(1, 6) ? ctx.Tmp("empty") : perf);
    int t = r.Chance(2, 3) ? (spe ? 2 : r.Below(2)) : r.Below(4);
    if (t) x->set_type(static_cast<afdo::ProfileType>(t));
    types.insert(t ? t : 1);
    what += " " + std::to_string(t) + (x->name() == perf ? "=perf" : "=empty");
  }
  vh::PerfData none;
  WriteFile(ctx.Tmp("empty"), none.Str());
  bool deprecated = r.Chance(1, 6);
  if (deprecated) { o.add_profile_names(perf); what += " deprecated"; }
  auto [st, out] = run(o);
  auto show = [&] { return st.ToString() + " for" + what; };
  if (deprecated || n == 0 || types.size() > 1 || *types.begin() == 3) {
    ctx.Check(st.code() == absl::StatusCode::kInvalidArgument && !FileExists(ctx.Tmp("cc")), "wrong inputs are accepted", show);
    ctx.Count("inputs_rejected");
  } else if (o.input_profiles(0).name() == perf && *types.begin() == (spe ? 2 : 1)) {
    ctx.Check(st.ok() == gs.ok() && out == gout, "inputs are taken for something else", [&] { return show() + " and " + gs.ToString() + " " + gout + " " + out; });
    if (st.ok()) ctx.Nontrivial(HashStr(out));
    ctx.Count("inputs_accepted");
  } else {
    ctx.Check(!st.ok() || out.find("\nf ") == std::string::npos, "profile from nothing", show);
  }
  // The computer on its own reads LBR profiles only.
  auto pc = afdo::PropellerProfileComputer::Create(o);
  bool lbr = true;
  for (auto &x : o.input_profiles()) lbr = lbr && (x.type() == afdo::PERF_LBR || x.type() == afdo::PROFILE_TYPE_UNSPECIFIED);
  ctx.Check(pc.ok() == lbr, "computer without an aggregator takes LBR profiles only", [&] { return pc.status().ToString() + " for" + what; });
  if (pc.ok() && !spe && !deprecated && n && o.input_profiles(0).name() == perf) {
    auto prof = (*pc)->ComputeProfile();
    ctx.Check(prof.ok() == gs.ok(), "computer agrees with the generator", [&] { return prof.status().ToString() + " " + gs.ToString(); });
  }
  for (auto &f : {p.path, perf, ctx.Tmp("empty"), ctx.Tmp("cc")}) unlink(f.c_str());
}

void Lazy(Ctx &ctx) {
  Rng &r = ctx.rng;
  int calls = 0, want = r.Below(1000), n = r.Below(5);
  std::vector<int> in(r.Below(20), want);
  using L = afdo::LazyEvaluator<std::unique_ptr<std::vector<int>>(std::unique_ptr<std::vector<int>>, std::string, int)>;
  std::string text = Text(r);
  L lazy([&](std::unique_ptr<std::vector<int>> v, std::string s, int k) {
    calls++;
    ctx.Check(s == text && k == n && v && *v == in, "inputs of a lazy evaluation", [&] { return s; });
    v->push_back(k);
    return v;
  }, std::make_unique<std::vector<int>>(in), text, n);
  auto expect = in;
  expect.push_back(n);
  ctx.Check(calls == 0, "evaluated too early", [&] { return std::to_string(calls); });
  const void *where = nullptr;
  for (int i = 0; i < n; i++) {
    auto &v = lazy.Evaluate();
    ctx.Check(calls == 1 && v && *v == expect && (!where || where == &v), "lazy evaluation", [&] { return std::to_string(calls); });
    where = &v;
    if (r.Chance(1, 5)) {
      L other = std::move(lazy);
      ctx.Check(*other.Evaluate() == expect && calls == 1, "lazy evaluation, moved", [&] { return std::to_string(calls); });
      break;
    }
  }
  ctx.Check(calls == (n > 0), "evaluated without need", [&] { return std::to_string(calls); });
  L given(std::make_unique<std::vector<int>>(in));
  ctx.Check(*given.Evaluate() == in, "value given", [&] { return ""; });
  ctx.Count("evaluations", n);
  if (n) ctx.Nontrivial(Mix(want, n));
}
}  // namespace

VPROP(C32) {
  switch (ctx.rng.Below(3)) {
    case 0: Inputs(ctx); break;
    case 1: Lazy(ctx); break;
    default: Builders(ctx); break;
  }
}
