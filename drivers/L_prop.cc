// link: core prop
// Propeller from perf data to the profile files: determinism (C29) and the whole pipeline (C37).
#include "absl_shim.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_profile_generator.h"
#include "vcc.h"
#include "vrun.h"
#include "vtool.h"

using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
struct Out {
  bool ok = false;
  std::string status, cc, ld;
  bool operator==(const Out &o) const { return ok == o.ok && status == o.status && cc == o.cc && ld == o.ld; }
};
Out Generate(Ctx &ctx, const afdo::PropellerOptions &base, const std::vector<std::string> &files, uint64_t seed, bool spe) {
  afdo::PropellerOptions o = base;
  std::vector<std::string> names;
  for (size_t i = 0; i < files.size(); i++) {
    names.push_back(ctx.Tmp("perf" + std::to_string(i)));
    WriteFile(names.back(), files[i]);
    auto *p = o.add_input_profiles();
    p->set_name(names.back());
    if (spe) p->set_type(afdo::PERF_SPE);
    else if (seed % 2) p->set_type(afdo::PERF_LBR);
  }
  std::string cc = ctx.Tmp("cc"), ld = ctx.Tmp("ld");
  o.set_cluster_out_name(cc);
  o.set_symbol_order_out_name(ld);
  absl::shim_internal::RuntimeSeed() = seed;
  Out r;
  auto st = afdo::GeneratePropellerProfiles(o);
  absl::shim_internal::RuntimeSeed() = 0;
  r.ok = st.ok();
  r.status = std::string(st.message());
  if (r.ok) { r.cc = ReadFile(cc); r.ld = ReadFile(ld); }
  for (auto &n : names) unlink(n.c_str());
  unlink(cc.c_str());
  unlink(ld.c_str());
  return r;
}
std::string BuildId(Rng &r) {
  std::string s;
  for (int i = 0; i < 20; i++) s += static_cast<char>(r.Below(256));
  return s;
}
void RandomOptions(Rng &r, afdo::PropellerOptions *o) {
  if (r.Chance(1, 2)) return;
  auto *p = o->mutable_code_layout_params();
  if (r.Chance(1, 2)) p->set_inter_function_reordering(true);
  if (r.Chance(1, 5)) p->set_split_functions(false);
  if (r.Chance(1, 5)) p->set_reorder_hot_blocks(false);
  if (r.Chance(1, 5)) p->set_call_chain_clustering(false);
  if (r.Chance(1, 5)) p->set_chain_split(false);
}
std::string FirstDiff(const std::string &a, const std::string &b) {
  auto x = Split(a, '\n'), y = Split(b, '\n');
  for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
    std::string p = i < x.size() ? x[i] : "(end)", q = i < y.size() ? y[i] : "(end)";
    if (p != q) return "line " + std::to_string(i + 1) + ": '" + p + "' or '" + q + "'";
  }
  return "same";
}
}  // namespace

VPROP(C29) {
  Rng &r = ctx.rng;
  ProgOptions po;
  po.max_funcs = r.Chance(1, 3) ? 12 : 5;
  po.awkward = r.Chance(1, 3);
  po.build_id = BuildId(r);
  Prog p = GenProg(ctx, po);
  bool spe = p.arm && r.Chance(1, 2);
  Run u = GenRun(ctx, p, po.build_id, r.PickOf({3, 12, 40}), spe);
  afdo::PropellerOptions o;
  o.set_binary_name(p.path);
  if (r.Chance(1, 2)) o.set_verbose_cluster_output(true);
  RandomOptions(r, &o);
  size_t n = u.samples.size();
  Out a = Generate(ctx, o, {u.File(0, n)}, 0, spe);
  auto compare = [&](const Out &b, const char *what) {
    return ctx.Check(a == b, what, [&] { return (a.ok != b.ok || a.status != b.status ? "'" + a.status + "' or '" + b.status + "'" : "cluster file " + FirstDiff(a.cc, b.cc) + "; symbol order " + FirstDiff(a.ld, b.ld)) + " of " + a.cc.substr(0, 1200); });
  };
  // Another hash seed, as in another process.
  for (int k = 0; k < 3; k++)
    if (!compare(Generate(ctx, o, {u.File(0, n)}, r.Next() | 2, spe), "depends on the hash seed")) { unlink(p.path.c_str()); return; }
  // Other orders of the same samples, also spread over several files.
  if (!spe) {
    Run v = u;
    r.Shuffle(v.samples);
    std::vector<std::string> files;
    if (r.Chance(1, 2) && n > 1) {
      size_t at = r.Below(n + 1), at2 = at + r.Below(n - at + 1);
      files = {v.File(0, at), v.File(at, at2), v.File(at2, n)};
      compare(Generate(ctx, o, files, r.Next(), spe), "depends on how the samples are spread over files");
    } else {
      compare(Generate(ctx, o, {v.File(0, n)}, r.Next(), spe), "depends on the order of the samples");
    }
  }
  ctx.Count(a.ok ? "profiles" : "rejected");
  if (a.ok && a.ld.size() > 1) ctx.Nontrivial(Mix(HashStr(a.cc), HashStr(a.ld)));
  ctx.Sample([&] { return a.ok ? a.cc + a.ld : a.status; });
  unlink(p.path.c_str());
}

VPROP(C37_propeller) {
  Rng &r = ctx.rng;
  ProgOptions po;
  po.max_funcs = r.Chance(1, 3) ? 12 : 5;
  po.awkward = r.Chance(1, 2);
  po.build_id = BuildId(r);
  Prog p = GenProg(ctx, po);
  Run u = GenRun(ctx, p, po.build_id, r.PickOf({2, 10, 40}), false);
  afdo::PropellerOptions o;
  o.set_binary_name(p.path);
  o.set_verbose_cluster_output(true);
  bool text_only = !r.Chance(1, 3);
  if (!text_only || r.Chance(1, 2)) o.set_filter_non_text_functions(text_only);
  bool v1 = r.Chance(3, 4);
  if (!v1) o.set_cluster_out_version(afdo::VERSION_0);
  RandomOptions(r, &o);
  // Read by name instead of by build id.
  if (r.Chance(1, 3)) o.set_profiled_binary_name(u.name);
  size_t n = u.samples.size(), at = r.Chance(1, 2) ? r.Below(n + 1) : n;
  std::vector<std::string> files = {u.File(0, at)};
  if (at < n) files.push_back(u.File(at, n));
  Out got = Generate(ctx, o, files, 0, false);
  // What it must be.
  MapModel w;
  w.p = &p;
  std::set<uint64_t> hot;
  for (auto *m : {&u.branches, &u.falls}) for (auto &[b, c] : *m) { hot.insert(b.first); hot.insert(b.second); }
  w.Build(&hot, text_only);
  CfgModel m;
  m.Add(w, u.branches, u.falls);
  bool want_ok = !p.funcs.empty() && !(m.branch_weight && m.dubious / static_cast<double>(m.branch_weight) > 0.3) && !(m.recorded && !m.edges_created);
  if (!ctx.Check(got.ok == want_ok, want_ok ? "Propeller fails" : "unusable profile accepted", [&] { return got.status; }) || !got.ok) {
    ctx.Count("rejected");
    unlink(p.path.c_str());
    return;
  }
  std::vector<CcFunc> fs;
  std::string err = ParseCc(got.cc, v1, &fs);
  auto show = [&] {
    std::string x;
    for (auto &[b, c] : u.branches) x += " " + Hex(b.first) + ">" + Hex(b.second) + ":" + std::to_string(c);
    for (auto &[b, c] : u.falls) x += " " + Hex(b.first) + ".." + Hex(b.second) + ":" + std::to_string(c);
    return got.cc.substr(0, 1500) + " from" + x + " in" + w.Show();
  };
  if (!ctx.Check(err.empty(), "cluster file is well formed", [&] { return err; })) return;
  std::map<int, int64_t> freq_sum;
  std::map<EdgeKey, std::pair<int64_t, int>> es;
  std::set<int> vague;  // several kinds of branches between the same blocks
  std::set<int> want;
  for (auto &[k, e] : m.edges) {
    es[k] = {e.weight, *e.kinds.begin()};
    if (e.kinds.size() > 1) { vague.insert(k.first.f); vague.insert(k.second.f); }
    if (e.weight) { want.insert(k.first.f); want.insert(k.second.f); }
  }
  std::set<int> seen;
  std::string sec;
  std::map<std::string, std::string> ld_names;  // every symbol of the order file, and the section it is in
  std::map<std::string, int> ld_func;
  for (auto &c : fs) {
    int f = -1;
    for (int i : w.sel) if (p.funcs[i].names == c.names) f = i;
    if (std::set<std::string>(c.names.begin(), c.names.end()).size() < c.names.size()) { unlink(p.path.c_str()); return; }  // two symbols of one name at one address
    if (!ctx.Check(f >= 0 && seen.insert(f).second && want.count(f), "functions of the profile", [&] { return c.names[0] + " in " + show(); })) return;
    ctx.Check(c.section == p.funcs[f].OutSec() && sec <= c.section && !c.has_module, "section of a function", show);
    sec = c.section;
    auto &bbs = p.funcs[f].bbs;
    std::set<int> placed;
    for (size_t k = 0; k < c.clusters.size(); k++) {
      for (size_t j = 0; j < c.clusters[k].size(); j++) {
        auto [id, clone] = c.clusters[k][j];
        int b = -1;
        for (size_t x = 0; x < bbs.size(); x++) if (static_cast<int>(bbs[x].id) == id) b = x;
        if (!ctx.Check(b >= 0 && !clone && placed.insert(b).second && (b != 0 || j == 0), "blocks of a function", show)) return;
      }
      bool entry = c.clusters[k][0].first == static_cast<int>(bbs[0].id);
      for (auto &nm : c.names) ld_func[entry ? nm : nm + ".__part." + std::to_string(k)] = f;
    }
    // A block that was executed is not left to the cold part.
    if (!ctx.Check(c.prof.size() == bbs.size(), "edge profile", show)) return;
    for (size_t b = 0; b < bbs.size(); b++) {
      H h{f, static_cast<int>(b)};
      int64_t q = CfgModel::Freq(es, h);
      if (!vague.count(f)) ctx.Check(!q || placed.count(b), "executed block is not laid out", [&] { return std::to_string(bbs[b].id) + " of " + c.names[0] + " in " + show(); });
      if (vague.count(f)) continue;
      std::string line = std::to_string(bbs[b].id) + ":" + std::to_string(q);
      std::multiset<std::string> we, ge;
      for (auto &[k, e] : es) if (k.first == h && e.second == 0) we.insert(std::to_string(w.B(k.second).id) + ":" + std::to_string(e.first));
      auto parts = Split(c.prof[b], ' ');
      ge.insert(parts.begin() + 1, parts.end());
      ctx.Check(parts[0] == line && ge == we, "edge profile", [&] { return c.prof[b] + " instead of " + line + " in " + show(); });
    }
    if (!vague.count(f)) ctx.Check(c.entry_freq == std::to_string(CfgModel::Freq(es, {f, 0})), "entry frequency", show);
    bool entry_in = placed.count(0);
    if (placed.size() < bbs.size()) for (auto &nm : c.names) ld_func[entry_in ? nm + ".cold" : nm] = f;
  }
  if (vague.empty()) ctx.Check(seen == want, "functions of the profile", [&] { return std::to_string(seen.size()) + " instead of " + std::to_string(want.size()) + " in " + show(); });
  // The order file has every symbol of these functions once and no other.
  std::set<std::string> symbols;
  for (auto &l : Split(got.ld, '\n')) if (!ctx.Check(ld_func.count(l) && symbols.insert(l).second, "symbol order", [&] { return l + " in " + got.ld + " with " + show(); })) return;
  ctx.Check(symbols.size() == ld_func.size(), "symbol order", [&] { return got.ld + " with " + show(); });
  ctx.Count("functions", fs.size());
  ctx.Count("branches", u.events);
  if (!fs.empty()) ctx.Nontrivial(Mix(HashStr(got.cc), HashStr(got.ld)));
  ctx.Sample([&] { return got.cc + got.ld; });
  unlink(p.path.c_str());
}

// create_llvm_prof --format=propeller gives what the library gives for the options its flags stand for.
VPROP(C37_tool) {
  Rng &r = ctx.rng;
  ProgOptions po;
  po.max_funcs = 5;
  po.awkward = r.Chance(1, 3);
  po.build_id = BuildId(r);
  Prog p = GenProg(ctx, po);
  bool spe = p.arm && r.Chance(2, 3);
  Run u = GenRun(ctx, p, po.build_id, 12, spe);
  // Rebuilt since the profile was taken.
  if (r.Chance(1, 5)) u.id = RandHex(r, 40);
  afdo::PropellerOptions o;
  std::vector<std::string> args = {"--format=propeller", "--binary=" + p.path};
  o.set_binary_name(p.path);
  auto *cl = o.mutable_code_layout_params();
  cl->set_call_chain_clustering(false);
  auto flag = [&](const std::string &n, bool on) { args.push_back(r.Chance(1, 2) ? "--" + n + (on ? "=true" : "=false") : on ? "--" + n : "--no" + n); };
  auto maybe = [&] { return r.Chance(1, 3); };
  auto coin = [&] { return r.Chance(1, 2); };
  if (maybe()) { bool x = coin(); flag("propeller_verbose_cluster_output", x); o.set_verbose_cluster_output(x); }
  if (maybe()) { bool x = coin(); flag("propeller_call_chain_clustering", x); cl->set_call_chain_clustering(x); }
  if (maybe()) { bool x = coin(); flag("propeller_inter_function_ordering", x); cl->set_inter_function_reordering(x); }
  if (maybe()) { bool x = coin(); flag("propeller_chain_split", x); cl->set_chain_split(x); }
  if (maybe()) { int x = r.Below(4); args.push_back("--propeller_chain_split_threshold=" + std::to_string(x)); cl->set_chain_split_threshold(x); }
  if (maybe()) { int x = r.Below(3000); args.push_back("--propeller_forward_jump_distance=" + std::to_string(x)); cl->set_forward_jump_distance(x); }
  if (maybe()) { int x = r.Below(3000); args.push_back("--propeller_backward_jump_distance=" + std::to_string(x)); cl->set_backward_jump_distance(x); }
  bool split_only = maybe(), layout_only = maybe();
  if (split_only) { flag("propeller_split_only", true); cl->set_reorder_hot_blocks(false); }
  if (layout_only) { flag("propeller_layout_only", true); cl->set_split_functions(false); }
  if (maybe()) { int x = 1 + r.Below(2); args.push_back("--propeller_cluster_encoding_version=" + std::to_string(x)); o.set_cluster_out_version(static_cast<afdo::ClusterEncodingVersion>(x)); }
  if (maybe()) { args.push_back("--profiled_binary_name=" + u.name); o.set_profiled_binary_name(u.name); }
  if (maybe()) { bool x = coin(); flag("propeller_output_module_name", x); o.set_output_module_name(x); }
  bool dump = r.Chance(1, 5);
  if (dump) args.push_back("--propeller_cfg_dump_dir=" + ctx.Tmp("cfgs"));
  if (maybe()) { flag("ignore_build_id", true); o.set_ignore_build_id(true); }
  if (spe) args.push_back("--profiler=perf_spe");
  else if (coin()) args.push_back("--profiler=perf");
  size_t n = u.samples.size(), at = spe || coin() ? n : r.Below(n + 1);
  std::vector<std::string> files = {u.File(0, at)};
  if (at < n) files.push_back(u.File(at, n));
  std::string names, list = "# profiles\n\n";
  for (size_t i = 0; i < files.size(); i++) {
    std::string f = ctx.Tmp("tperf" + std::to_string(i));
    WriteFile(f, files[i]);
    names += (i ? ";" : "") + f;
    list += f + "\n";
    if (coin()) list += "#\n\n";
  }
  if (r.Chance(1, 3)) names = r.PickOf<std::string>({names + ";", ";" + names, names + ";;"});
  if (coin()) { WriteFile(ctx.Tmp("list"), list); names = "@" + ctx.Tmp("list"); }
  args.push_back("--profile=" + names);
  std::string cc = ctx.Tmp("tcc"), ld = ctx.Tmp("tld"), bad;
  bool no_ld = r.Chance(1, 6);
  switch (r.Below(20)) {
    case 0: bad = cc = "/dev/full"; break;
    case 1: bad = cc = ctx.Tmp("nodir/x"); break;
    case 2: if (!no_ld) bad = ld = "/dev/full"; break;
    case 3: if (!no_ld) bad = ld = ctx.Tmp("nodir/y"); break;
    case 4: bad = "no output"; break;
    default: break;
  }
  if (bad != "no output") args.push_back((coin() ? "--out=" : "--gcov=") + cc);
  if (!no_ld) args.push_back("--propeller_symorder=" + ld);
  r.Shuffle(args);
  Out want = Generate(ctx, o, files, 0, spe);
  std::string err, all;
  for (auto &a : args) all += " " + a;
  int st = RunTool(ctx, Tool("L_tool_create_llvm_prof"), args, &err);
  bool want_ok = want.ok && !(split_only && layout_only) && bad.empty();
  // An empty order file is not noticed to be lost.
  if (want_ok == false && want.ok && bad == "/dev/full" && ld == bad && want.ld.empty() && !(split_only && layout_only)) want_ok = st == 0;
  auto show = [&] { return want.status + " (expected); exit status " + std::to_string(st) + " from" + all + ": " + err.substr(err.size() > 600 ? err.size() - 600 : 0); };
  ctx.Check(!Sanitizer(err), "undefined behaviour in a tool", [&] { return err.substr(0, 3000); });
  if (ctx.Check((st == 0) == want_ok, want_ok ? "tool fails" : "tool reports success", show) && want_ok) {
    auto got = ReadFile(cc), gld = no_ld ? "" : ReadFile(ld);
    ctx.Check(got == want.cc, "tool writes another cluster file", [&] { return FirstDiff(got, want.cc) + " " + show(); });
    if (!no_ld) ctx.Check(gld == want.ld, "tool writes another symbol order", [&] { return FirstDiff(gld, want.ld) + " " + show(); });
    if (dump) ctx.Check(!ReadFile(ctx.Tmp("cfgs/cfg-index.txt")).empty(), "tool dumps no graphs", show);
    ctx.Nontrivial(Mix(HashStr(got), HashStr(all)));
    ctx.Count("tool_runs_ok");
  } else if (!want_ok) {
    ctx.Count("tool_runs_rejected");
  }
  if (dump && std::system(("rm -rf '" + ctx.Tmp("cfgs") + "'").c_str()) != 0) ctx.Count("not_removed");
  for (auto &f : {cc, ld, ctx.Tmp("list"), ctx.Tmp("tperf0"), ctx.Tmp("tperf1"), p.path}) if (f.rfind(ctx.tmp, 0) == 0) unlink(f.c_str());
  ctx.Sample([&] { return all; });
}
