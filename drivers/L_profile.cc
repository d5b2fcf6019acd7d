// Monitors of the symbol map and of the LLVM sample profile reader and writer.
// link: core
#include "vcommon.h"
#include "vllvmprof.h"
#include "vsym.h"
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "profile_writer.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
ABSL_DECLARE_FLAG(double, sample_threshold_frac);
using namespace vh;
using namespace devtools_crosstool_autofdo;

static std::vector<std::string> Names(Rng &r, bool suffixes = false) {
  std::vector<std::string> v = {"main", "foo", "bar", "_Z3bazv", "_ZN1AD4Ev", "operator_new", "x", "fn$1"};
  int n = r.Below(6);
  for (int i = 0; i < n; i++) {
    std::string s = "_Z";
    int len = r.Chance(1, 10) ? r.In(100, 600) : r.In(1, 30);
    for (int j = 0; j < len; j++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"[r.Below(64)];
    v.push_back(s);
  }
  if (suffixes) {
    size_t base = v.size();
    for (int i = 0; i < 6; i++) v.push_back(v[r.Below(base)] + r.PickOf<const char *>({".cold", ".llvm.1234", ".__part.3", ".isra.0", ".constprop.2", ".llvm.99.cold", ".cold.__part.1", ".part.0.llvm.7"}));
  }
  return v;
}
// Position counts of 64 bit; the in-file line offset is 16 bit.
static GenOpt Opt(Rng &r) {
  GenOpt o;
  o.count_bits = r.PickOf<int>({4, 12, 32, 50});
  o.max_funcs = r.PickOf<int>({1, 4, 12});
  o.max_depth = r.In(0, 4);
  if (r.Chance(1, 6)) { o.max_depth = r.In(5, 9); o.max_funcs = 3; }
  o.max_disc = r.PickOf<uint32_t>({0, 0xff, 0xffffffffu});
  return o;
}
struct WriteCfg { lsp::SampleProfileFormat fmt; bool compress = false, split = false, md5 = false, fs = false; };
static WriteCfg PickCfg(Rng &r) {
  WriteCfg c{r.PickOf<lsp::SampleProfileFormat>({lsp::SPF_Text, lsp::SPF_Binary, lsp::SPF_Ext_Binary, lsp::SPF_Ext_Binary})};
  if (c.fmt == lsp::SPF_Ext_Binary) { c.compress = r.Chance(1, 3); c.split = r.Chance(1, 3); }
  return c;
}
static std::string CfgName(const WriteCfg &c) {
  return std::string(c.fmt == lsp::SPF_Text ? "text" : c.fmt == lsp::SPF_Binary ? "binary" : "extbinary") + (c.compress ? "+compress" : "") + (c.split ? "+split" : "") + (c.md5 ? "+md5" : "");
}
static bool WriteL(const std::string &path, const SymbolMap &m, const WriteCfg &c) {
  LLVMProfileWriter w(c.fmt);
  auto *sw = w.CreateSampleWriter(path);
  if (!sw) return false;
  if (c.split) sw->setUseCtxSplitLayout();
  if (c.compress) sw->setToCompressAllSections();
  if (c.md5) sw->setUseMD5();
  w.setSymbolMap(&m);
  return w.WriteToFile(path);
}

VPROP(C09) {
  Rng &r = ctx.rng;
  GenOpt o = Opt(r);
  o.names = Names(r);
  MProf prof = GenProf(r, o);
  SourceInfo::use_fs_discriminator = r.Chance(1, 4);
  SourceInfo::use_base_only_in_fs_discriminator = false;
  uint64_t threshold = r.Chance(1, 2) ? 0 : r.Mag(o.count_bits);
  // A function without debug information: a total but no positions.
  if (r.Chance(1, 4)) { MSym s; s.total = r.Mag(o.count_bits); s.head = r.Mag(o.count_bits); prof["nodebug"] = s; }
  SymbolMap m;
  Populate(m, prof);
  if (prof.count("nodebug") && prof["nodebug"].pos.empty() && prof["nodebug"].calls.empty()) m.AddSymbolEntryCount("nodebug", 0, prof["nodebug"].total);
  m.set_count_threshold(threshold);
  WriteCfg c = PickCfg(r);
  std::string path = ctx.Tmp("p.prof"), err;
  if (!ctx.Check(WriteL(path, m, c), "llvm:write-failed", [&] { return CfgName(c); })) return;
  MProf want = Expected(prof, threshold), got;
  DiffOpt opt; opt.sub_head = false;
  bool fs = false;
  if (!ReadDirect(path, &got, &err, &fs)) {
    // LLVM does not accept a binary profile without functions in some formats.
    if (!want.empty()) ctx.Fail("llvm:unreadable", CfgName(c) + ": " + err);
    SourceInfo::use_fs_discriminator = false;
    return;
  }
  std::string d = DiffProf(want, got, opt);
  if (!d.empty()) ctx.Fail("llvm:content", CfgName(c) + ": " + d);
  // The text format tells nothing unless there is a function to tell it with; binary has no flag.
  if (c.fmt == lsp::SPF_Ext_Binary && !want.empty())
    ctx.Check(fs == SourceInfo::use_fs_discriminator, "llvm:fs-flag", [&] { return std::to_string(fs); });
  {
    SymbolMap back;
    absl::node_hash_set<std::string> names;
    LLVMProfileReader rd(&back, names);
    ctx.Check(rd.ReadFromFile(path), "llvm:reader-refused", [&] { return CfgName(c); });
    MProf rb = FromMap(back);
    d = DiffProf(want, rb, opt);
    if (!d.empty()) ctx.Fail("llvm:round-trip", CfgName(c) + ": " + d);
    if (c.fmt == lsp::SPF_Ext_Binary && !want.empty())
      ctx.Check(rd.ProfileIsFS() == SourceInfo::use_fs_discriminator, "llvm:reader-fs-flag", [&] { return ""; });
  }
  SourceInfo::use_fs_discriminator = false;
  if (!want.empty()) ctx.Nontrivial(Mix(HashProf(want), HashStr(CfgName(c))));
  ctx.Count("functions_round_tripped", want.size());
  ctx.Count("written_" + CfgName(c));
  ctx.Sample([&] { return CfgName(c) + " threshold " + std::to_string(threshold) + " " + ShowProf(want); });
}

VPROP(C10) {
  Rng &r = ctx.rng;
  int n = r.In(2, 4);
  GenOpt o = Opt(r);
  o.names = Names(r);
  o.names.push_back("__cxx_global_var_init.3");
  o.names.push_back("_GLOBAL__sub_I_a.cc");
  o.names.push_back("_GLOBAL__sub_I_b.cc");
  std::vector<const char *> strip = {"__none__"}, sole = {"__none__"}, cold = {"__none__"};
  bool special = r.Chance(1, 2);
  if (special) {
    // The beginning of a name, all of it, more than it, or something in its middle.
    auto special_name = [&] {
      std::string n = r.Pick(o.names);
      switch (r.Below(6)) {
        case 0: return n;
        case 1: return n + r.PickOf<const char *>({"x", ".cold", "_", "1"});
        case 2: return n.size() > 2 ? n.substr(1) : n + "y";
        default: return n.substr(0, r.In(2, 5));
      }
    };
    for (int k = r.Below(3); k > 0; k--) strip.push_back(Intern(special_name()));
    for (int k = r.Below(4); k > 0; k--) sole.push_back(Intern(special_name()));
    for (int k = r.Below(3); k > 0; k--) cold.push_back(r.Chance(1, 3) ? Intern(special_name()) : r.PickOf<const char *>({"__cxx_global_var_init", "_GLOBAL__sub_I_", "fo"}));
  }
  auto match = [](const std::vector<const char *> &l, const std::string &s) { for (auto *p : l) if (s.compare(0, strlen(p), p) == 0) return true; return false; };
  std::vector<MProf> profs;
  std::vector<std::string> files;
  for (int i = 0; i < n; i++) {
    MProf p = GenProf(r, o);
    if (i && r.Chance(2, 3))
      for (auto &[name, s] : profs[r.Below(i)]) if (r.Chance(1, 2)) {
        MSym c = s;
        std::function<void(MSym &)> scale = [&](MSym &x) {
          x.total = 0;
          for (auto &[k, q] : x.pos) { q.count = r.Mag(o.count_bits); x.total += q.count; for (auto &[t, v] : q.targets) v = r.Mag(o.count_bits); }
          for (auto &[k, y] : x.calls) { scale(y); x.total += y.total; }
        };
        scale(c);
        c.head = r.Mag(o.count_bits);
        p[name] = c;
      }
    // Profiles with functions that were never sampled are not written.
    for (auto it = p.begin(); it != p.end();) it = it->second.total == 0 ? p.erase(it) : std::next(it);
    if (p.empty()) { MSym s; s.pos[0].count = s.total = 7; s.pos[0].num_inst = 1; p["main"] = s; }
    SymbolMap m;
    Populate(m, p);
    WriteCfg c = PickCfg(r);
    files.push_back(ctx.Tmp("m" + std::to_string(i)));
    if (!ctx.Check(WriteL(files.back(), m, c), "llvmmerge:write-failed", [&] { return CfgName(c); })) return;
    profs.push_back(Expected(p, 0));
  }
  // Model of the merge.
  MProf want;
  std::map<std::string, int> in;
  for (auto &p : profs) for (auto &[k, s] : p) in[k]++;
  for (auto &p : profs)
    for (auto &[k, s] : p) {
      if (special) {
        if (match(strip, k)) continue;
        if (match(sole, k)) { if (in[k] > 1) continue; }
        else if (match(cold, k)) { MSym cs; cs.total = kMinSamples + 1; want[k] = cs; continue; }
      }
      MergeSym(want[k], s);
    }
  std::vector<std::string> order = files;
  r.Shuffle(order);
  DiffOpt opt; opt.num_inst = false;
  for (int t = 0; t < 2; t++) {
    SymbolMap back;
    absl::node_hash_set<std::string> names;
    SpecialSyms sp(strip.data(), strip.size(), sole.data(), sole.size(), cold.data(), cold.size());
    for (auto &f : t ? order : files) {
      LLVMProfileReader rd(&back, names, special ? &sp : nullptr);
      ctx.Check(rd.ReadFromFile(f), "llvmmerge:reader-refused", [&] { return f; });
    }
    MProf got = FromMap(back);
    // A function withdrawn from the result keeps no total and is not written.
    for (auto it = got.begin(); it != got.end();) it = it->second.total == 0 ? got.erase(it) : std::next(it);
    std::string d = DiffProf(want, got, opt);
    if (!d.empty()) ctx.Fail(t ? "llvmmerge:order" : "llvmmerge:sum", std::to_string(n) + " profiles" + (special ? " with special symbols: " : ": ") + d);
    // Writing the merged profile loses nothing.
    WriteCfg c = PickCfg(r);
    std::string f = ctx.Tmp("merged"), err;
    back.set_count_threshold(0);
    if (WriteL(f, back, c)) {
      MProf g2;
      if (ReadDirect(f, &g2, &err)) {
        d = DiffProf(want, g2, opt);
        if (!d.empty()) ctx.Fail("llvmmerge:written", d);
      } else if (!want.empty()) ctx.Fail("llvmmerge:unreadable", err);
    } else ctx.Fail("llvmmerge:write-failed", CfgName(c));
  }
  ctx.Nontrivial(HashProf(want));
  ctx.Count("profiles_merged", n);
  if (special) ctx.Count("merges_with_special_symbols");
  ctx.Sample([&] { return std::to_string(n) + " files -> " + ShowProf(want); });
}

// The same profile entered in another order and with other hash seeds gives the same bytes.
VPROP(C11) {
  Rng &r = ctx.rng;
  GenOpt o = Opt(r);
  o.names = Names(r, true);
  o.max_calls = o.max_depth > 4 ? 2 : 6;
  MProf prof = GenProf(r, o);
  struct Add { int kind; std::string top, target; SourceStack st; uint64_t n; };
  std::vector<Add> adds;
  std::function<void(const std::string &, const MSym &, SourceStack)> walk = [&](const std::string &top, const MSym &s, SourceStack st) {
    for (auto &[off, p] : s.pos) {
      SourceStack x = st;
      x[0].line = off >> 32; x[0].discriminator = static_cast<uint32_t>(off);
      adds.push_back({0, top, "", x, p.count});
      for (auto &[t, c] : p.targets) adds.push_back({1, top, t, x, c});
    }
    for (auto &[cs, sub] : s.calls) {
      SourceStack x = st;
      x[0].line = cs.first >> 32; x[0].discriminator = static_cast<uint32_t>(cs.first);
      x.insert(x.begin(), SourceInfo(Intern(cs.second), "", "", 0, 0, 0));
      walk(top, sub, x);
    }
  };
  for (auto &[n, s] : prof) walk(n, s, {SourceInfo(Intern(n), "", "", 0, 0, 0)});
  WriteCfg c = PickCfg(r);
  c.md5 = c.fmt == lsp::SPF_Ext_Binary && r.Chance(1, 4);
  int limit = r.In(0, 3), trim = r.Below(3), throttle = r.Below(4);
  bool elide = r.Chance(1, 2);
  std::string policy = r.PickOf<const char *>({"all", "selected", "none"});
  std::string first, flags = CfgName(c) + " policy=" + policy + " elide=" + std::to_string(elide) + " nest=" + std::to_string(limit) + " trim=" + std::to_string(trim) + " throttle=" + std::to_string(throttle);
  for (int t = 0; t < 4; t++) {
    absl::shim_internal::RuntimeSeed() = r.Next();
    std::string path = ctx.Tmp("d" + std::to_string(t));
    {
      SymbolMap m;
      m.set_suffix_elision_policy(policy);
      std::vector<std::string> names;
      for (auto &[n, s] : prof) names.push_back(n);
      r.Shuffle(names);
      for (auto &n : names) { m.AddSymbol(n); m.AddSymbolEntryCount(n, prof[n].head); }
      r.Shuffle(adds);
      for (auto &a : adds) {
        if (a.kind == 0) m.AddSourceCount(a.top, a.st, a.n, 1);
        else m.AddIndirectCallTarget(a.top, a.st, a.target, a.n);
      }
      if (elide) m.ElideSuffixesAndMerge();
      m.FlattenNestedInlineCallsites(limit);
      if (throttle) m.throttleInlineInstancesAtSameLocation(throttle);
      if (trim) m.TrimCallTargets(trim);
      m.CalculateThreshold();
      if (!ctx.Check(WriteL(path, m, c), "det:write-failed", [&] { return flags; })) return;
    }
    std::string bytes = ReadFile(path);
    unlink(path.c_str());
    if (t == 0) first = bytes;
    else if (bytes != first) {
      size_t i = 0;
      while (i < bytes.size() && i < first.size() && bytes[i] == first[i]) i++;
      ctx.Fail("det:bytes", (throttle ? "throttled " : "") + flags + ": run " + std::to_string(t) + " differs at byte " + std::to_string(i) + " of " + std::to_string(first.size()) + (c.fmt == lsp::SPF_Text ? "\n" + first.substr(0, 600) + "\n---\n" + bytes.substr(0, 600) : ""));
      break;
    }
  }
  absl::shim_internal::RuntimeSeed() = 0;
  ctx.Nontrivial(Mix(HashProf(prof), HashStr(flags)));
  ctx.Count("writes_compared", 3);
  ctx.Count("records_entered", adds.size() * 4);
  ctx.Sample([&] { return flags + " " + ShowProf(prof); });
}

// ---- suffix elision ------------------------------------------------------------
static std::string OrigName(const std::string &policy, const std::string &name) {
  if (policy == "none") return name;
  if (policy == "all") {
    if (!name.empty() && name[0] == '.') return name;
    return name.substr(0, name.find('.'));
  }
  std::string s = name;
  for (const char *suf : {".cold", ".llvm.", ".__part."}) {
    size_t l = strlen(suf);
    size_t at = std::string::npos;
    for (size_t i = 0; i + l <= s.size(); i++) if (s.compare(i, l, suf) == 0) at = i;
    if (at == std::string::npos) continue;
    size_t end = at + l;
    if (suf[l - 1] == '.') while (end < s.size() && s[end] != '.') end++;
    s = s.substr(0, at) + s.substr(end);
  }
  return s;
}
VPROP(C05) {
  Rng &r = ctx.rng;
  GenOpt o = Opt(r);
  o.max_funcs = 16;
  o.names = Names(r, true);
  // Names made of pieces, so that several suffixes meet in one name.
  int extra = r.Below(8);
  for (int i = 0; i < extra; i++) {
    std::string s = r.PickOf<const char *>({"foo", "_Z3barv", "a", ".asm", "main", "coldstart"});
    int k = r.Below(4);
    for (int j = 0; j < k; j++) s += r.PickOf<const char *>({".cold", ".llvm.123", ".llvm.18446744073709551615", ".__part.1", ".__part.22", ".isra.0", ".part.1", ".lto_priv.0", ".colder", ".llvm", ".x"});
    o.names.push_back(s);
  }
  std::string policy = r.PickOf<const char *>({"all", "selected", "selected", "none"});
  MProf prof = GenProf(r, o);
  SymbolMap m;
  m.set_suffix_elision_policy(policy);
  // Some functions carry further names (aliases), which stand for the same symbol.
  std::map<std::string, std::string> alias_of;
  if (r.Below(2))
    for (auto &[n, s] : prof)
      for (int k = r.Below(3); k > 0; k--) {
        std::string base = r.Below(3) ? "al" + std::to_string(r.Below(6)) : OrigName("all", r.Pick(o.names));
        if (base.empty()) continue;
        std::string a = base + r.PickOf<const char *>({"", "", ".cold", ".llvm.7", ".__part.1", ".isra.0"});
        if (prof.count(a) || alias_of.count(a)) continue;
        alias_of[a] = n;
        m.AddAlias(n, a);
      }
  // Call targets are entered under the name without suffix.
  Populate(m, prof);
  for (auto &n : o.names)
    ctx.Check(m.GetOriginalName(n) == OrigName(policy, n), "elide:name", [&] { return policy + " " + n + ": want " + OrigName(policy, n) + " got " + m.GetOriginalName(n); });
  ctx.Check(m.suffix_elision_policy() == policy, "elide:policy", [&] { return policy; });
  std::function<MSym(const MSym &)> fix = [&](const MSym &s) {
    MSym x = s;
    for (auto &[off, p] : x.pos) {
      std::map<std::string, uint64_t> t2;
      for (auto &[t, c] : p.targets) t2[OrigName(policy, t)] += c;
      p.targets = t2;
    }
    for (auto &[cs, sub] : x.calls) sub = fix(sub);
    return x;
  };
  // Names that are aliases of one another, or equal once their suffixes are gone, end up
  // as one symbol holding the sum.
  std::map<std::string, std::string> rep;
  std::function<std::string(const std::string &)> find = [&](const std::string &n) { auto it = rep.find(n); return it == rep.end() ? n : find(it->second); };
  auto join = [&](const std::string &a, const std::string &b) { std::string x = find(a), y = find(b); if (x != y) rep[x] = y; };
  for (auto &[a, n] : alias_of) join("<" + a, "<" + n), join("<" + a, OrigName(policy, a));
  for (auto &[n, s] : prof) join("<" + n, OrigName(policy, n));
  MProf merged, want;
  uint64_t total = 0, names_total = 0;
  for (auto &[n, s] : prof) { MergeSym(merged[find("<" + n)], fix(s)); total += s.total; names_total += s.total; }
  for (auto &[n, s] : prof) want[OrigName(policy, n)] = merged[find("<" + n)];
  for (auto &[a, n] : alias_of) { want[OrigName(policy, a)] = merged[find("<" + a)]; names_total += prof.at(n).total; }
  uint64_t before = m.GetTotalSum();
  ctx.Check(before == names_total, "elide:total-sum", [&] { return std::to_string(before); });
  std::map<std::string, const afdo::Symbol *> sym_before;
  for (auto &[n, s] : m.map()) sym_before[n] = s;
  for (auto &[a, n] : alias_of) ctx.Check(sym_before[a] == sym_before[n], "elide:alias", [&] { return a + " of " + n; });
  m.ElideSuffixesAndMerge();
  for (auto &[n, s] : m.map()) for (auto &[n2, s2] : m.map())
    ctx.Check((s == s2) == (find(n) == find(n2)), "elide:shared-symbol", [&] { std::string t = policy + " " + n + " and " + n2 + (s == s2 ? " share a symbol;" : " do not share a symbol;"); for (auto &[q, x] : prof) t += " " + q; for (auto &[q, x] : alias_of) t += " " + q + "=" + x; return t; });
  MProf got = FromMap(m);
  DiffOpt opt; opt.sub_head = false;
  std::string d = DiffProf(want, got, opt);
  if (!d.empty()) ctx.Fail("elide:merge", policy + ": " + d);
  std::set<const afdo::Symbol *> distinct;
  uint64_t after = 0;
  for (auto &[n, s] : m.map()) if (distinct.insert(s).second) after += s->total_count;
  ctx.Check(after == total, "elide:conservation", [&] { return std::to_string(total) + " became " + std::to_string(after); });
  // Doing it again changes nothing, as long as no suffix is left to strip.
  bool stable = true;
  for (auto &[n, s] : want) stable &= OrigName(policy, n) == n;
  if (stable) {
    m.ElideSuffixesAndMerge();
    MProf again = FromMap(m);
    d = DiffProf(got, again, opt);
    if (!d.empty()) ctx.Fail("elide:idempotent", d);
  }
  if (policy != "none" && want.size() < prof.size() + alias_of.size()) ctx.Nontrivial(Mix(HashProf(prof), HashStr(policy)));
  ctx.Count("functions_in", prof.size());
  ctx.Count("functions_merged_away", prof.size() + alias_of.size() - want.size());
  ctx.Count("aliases", alias_of.size());
  ctx.Sample([&] { std::string t = policy; for (auto &[n, s] : prof) t += " " + n + "->" + OrigName(policy, n); return t; });
}

// ---- flattening ----------------------------------------------------------------
static void EachName(const MSym &s, const std::function<void(const std::string &)> &f) { for (auto &[cs, c] : s.calls) { f(cs.second); EachName(c, f); } }
static int Depth(const MSym &s) { int d = 1; for (auto &[k, c] : s.calls) d = std::max(d, 1 + Depth(c)); return d; }
static std::string Inconsistent(const std::string &path, const MSym &s) {
  uint64_t t = 0;
  for (auto &[k, p] : s.pos) t += p.count;
  for (auto &[k, c] : s.calls) { t += c.total; std::string e = Inconsistent(path + "@" + k.second, c); if (!e.empty()) return e; }
  return t == s.total ? "" : path + ": total " + std::to_string(s.total) + " but its positions and inlined callees sum to " + std::to_string(t);
}
// Counts summed over every place a function's code was inlined, per function and position.
using Flat = std::map<std::string, std::map<uint64_t, MPos>>;
static void AddFlat(Flat &f, const std::string &n, const MSym &s) {
  for (auto &[off, p] : s.pos) { MPos &q = f[n][off]; q.count += p.count; for (auto &[t, c] : p.targets) q.targets[t] += c; }
  for (auto &[cs, c] : s.calls) AddFlat(f, cs.second, c);
}
static uint64_t EstimateHead(const MSym &s) {
  if (s.head) return s.head;
  if (!s.pos.empty() && (s.calls.empty() || s.calls.begin()->first.first >= s.pos.begin()->first)) return s.pos.begin()->second.count;
  if (!s.calls.empty()) return EstimateHead(s.calls.begin()->second);
  return 0;
}
struct NestModel {
  MProf p;
  int max;
  void Limit(MSym &f, int depth) {
    if (depth < max) {
      for (auto &[cs, c] : f.calls) { uint64_t before = c.total; Limit(c, depth + 1); f.total += c.total - before; }
      return;
    }
    auto calls = f.calls;
    f.calls.clear();
    for (auto &[cs, c] : calls) {
      f.total -= c.total;
      Limit(c, 1);
      uint64_t h = EstimateHead(c);
      c.head = h;
      MPos &q = f.pos[cs.first];
      uint64_t before = q.count;
      q.targets[cs.second] += h;
      q.count = std::max({q.count, h, q.targets[cs.second]});
      f.total += q.count - before;
      MergeSym(p[cs.second], c);
    }
  }
  void Run() { for (auto it = p.begin(); it != p.end(); ++it) Limit(it->second, 1); }
};
VPROP(C12) {
  Rng &r = ctx.rng;
  GenOpt o = Opt(r);
  o.count_bits = std::min(o.count_bits, 40);
  o.names = Names(r);
  o.max_disc = 3; o.max_line = 8;
  o.max_depth = r.In(1, 5);
  MProf prof = GenProf(r, o);
  // Instances may know how often they were entered.
  if (r.Chance(1, 3)) {
    std::function<void(MSym &)> heads = [&](MSym &s) { for (auto &[cs, c] : s.calls) { if (r.Chance(1, 3)) c.head = r.Mag(o.count_bits); heads(c); } };
    for (auto &[n, s] : prof) heads(s);
  }
  int kind = r.Below(5);
  absl::shim_internal::RuntimeSeed() = r.Next();
  Flat before;
  for (auto &[n, s] : prof) AddFlat(before, n, s);
  DiffOpt opt; opt.num_inst = false; opt.sub_head = false;
  if (kind <= 1) {
    // Limit of the inline nesting.
    int max = r.In(1, 4);
    SymbolMap m;
    Populate(m, prof);
    m.FlattenNestedInlineCallsites(max);
    MProf got = FromMap(m);
    Flat after;
    bool changed = false;
    for (auto &[n, s] : prof) changed |= Depth(s) > max;
    for (auto &[n, s] : got) {
      AddFlat(after, n, s);
      ctx.Check(Depth(s) <= max, "nest:depth", [&] { return n + " still nests " + std::to_string(Depth(s)) + " levels, limit " + std::to_string(max); });
      std::string e = Inconsistent(n, s);
      if (!e.empty()) ctx.Fail("nest:total", e);
    }
    // No sample is lost: every function and position has at least what it had.
    for (auto &[n, ps] : before)
      for (auto &[off, p] : ps) {
        ctx.Check(after[n][off].count >= p.count, "nest:lost", [&, n = n, off = off] { return n + " " + Hex(off) + ": " + std::to_string(before[n][off].count) + " became " + std::to_string(after[n][off].count); });
        for (auto &[t, c] : p.targets)
          ctx.Check(after[n][off].targets[t] >= c, "nest:lost-target", [&, n = n, off = off, t = t] { return n + " " + Hex(off) + " " + t; });
      }
    std::set<std::string> tops;
    bool recursive = false;
    std::function<void(const std::string &, const MSym &, std::set<std::string>)> rec = [&](const std::string &n, const MSym &s, std::set<std::string> on) {
      if (!on.insert(n).second) recursive = true;
      for (auto &[cs, c] : s.calls) rec(cs.second, c, on);
    };
    for (auto &[n, s] : prof) rec(n, s, {});
    if (!recursive) {
      NestModel mod{prof, max};
      mod.Run();
      std::string d = DiffProf(mod.p, got, opt);
      if (!d.empty()) ctx.Fail("nest:model", "limit " + std::to_string(max) + ": " + d);
      ctx.Count("nesting_compared_exactly");
    } else ctx.Count("nesting_with_recursive_inlining");
    if (changed) ctx.Nontrivial(Mix(HashProf(prof), max));
    ctx.Sample([&] { return "limit " + std::to_string(max) + " " + ShowProf(prof) + " -> " + ShowProf(got); });
  } else if (kind == 2) {
    // Full flattening.
    SymbolMap src, m;
    Populate(src, prof);
    uint64_t nf = 0, nfl = 0;
    m.BuildFlatProfile(src, false, 0, nf, nfl);
    MProf got = FromMap(m);
    // Expected: one record per function, each inlined call now a call target of the caller.
    MProf want;
    std::function<void(const std::string &, const MSym &, bool)> flat = [&](const std::string &n, const MSym &s, bool top) {
      MSym x;
      x.pos = s.pos;
      for (auto &[cs, c] : s.calls) {
        uint64_t h = EstimateHead(c);
        MPos &q = x.pos[cs.first];
        q.count = std::max(q.count, h);
        q.targets[cs.second] += h;
        flat(cs.second, c, false);
      }
      for (auto &[k, q] : x.pos) x.total += q.count;
      x.head = top ? s.head : EstimateHead(s);
      MergeSym(want[n], x);
    };
    for (auto &[n, s] : prof) flat(n, s, true);
    std::string d = DiffProf(want, got, opt);
    if (!d.empty()) ctx.Fail("flat:model", d);
    ctx.Check(nf == prof.size() && nfl == prof.size(), "flat:counters", [&] { return std::to_string(nf) + " " + std::to_string(nfl); });
    for (auto &[n, s] : got) ctx.Check(s.calls.empty(), "flat:nested", [&] { return n; });
    for (auto &[n, s] : got) { std::string e = Inconsistent(n, s); if (!e.empty()) ctx.Fail("flat:total", e); }
    bool any = false;
    for (auto &[n, s] : prof) any |= !s.calls.empty();
    if (any) ctx.Nontrivial(HashProf(prof) + 1);
    ctx.Count("flattened_fully");
  } else if (kind == 4) {
    // Hot inlined instances kept, cold ones made functions of their own.
    std::vector<uint64_t> totals;
    std::function<void(const MSym &)> all = [&](const MSym &s) { for (auto &[cs, c] : s.calls) { totals.push_back(c.total); all(c); } };
    for (auto &[n, s] : prof) all(s);
    uint64_t thr = totals.empty() || r.Chance(1, 4) ? r.Mag(o.count_bits + 2) : r.Pick(totals) - r.Below(2);
    SymbolMap src, m;
    Populate(src, prof);
    uint64_t nc = 0, nfl = 0, cold = 0;
    m.BuildHybridProfile(src, thr, nc, nfl);
    MProf got = FromMap(m), want;
    std::function<MSym(const MSym &)> hyb = [&](const MSym &s) {
      MSym x;
      x.pos = s.pos; x.head = s.head;
      for (auto &[cs, c] : s.calls) {
        if (c.total > thr) { x.calls[cs] = hyb(c); continue; }
        cold++;
        MSym y = c;
        y.head = EstimateHead(c);
        MPos &q = x.pos[cs.first];
        q.count = std::max(q.count, y.head);
        q.targets[cs.second] += y.head;
        MergeSym(want[cs.second], hyb(y));
      }
      for (auto &[k, q] : x.pos) x.total += q.count;
      for (auto &[k, c] : x.calls) x.total += c.total;
      return x;
    };
    for (auto &[n, s] : prof) { MSym x = hyb(s); MergeSym(want[n], x); }
    std::string d = DiffProf(want, got, opt);
    if (!d.empty()) ctx.Fail("flat:hybrid", "threshold " + std::to_string(thr) + ": " + d + " of " + ShowProf(prof));
    ctx.Check(nc == totals.size() && nfl == cold, "flat:counters", [&] { return std::to_string(nc) + " " + std::to_string(nfl); });
    if (cold && cold < totals.size()) ctx.Nontrivial(Mix(HashProf(prof), thr + 2));
    ctx.Count("flattened_hybrid");
  } else {
    // Cold functions flattened, hot ones kept as they are.
    uint64_t thr = r.Mag(o.count_bits + 2);
    SymbolMap src, m;
    Populate(src, prof);
    uint64_t nf = 0, nfl = 0, cold = 0;
    m.BuildFlatProfile(src, true, thr, nf, nfl);
    MProf got = FromMap(m), want;
    for (auto &[n, s] : prof) {
      if (s.total >= thr) { want[n] = s; continue; }
      cold++;
      MSym x;
      x.pos = s.pos; x.head = s.head;
      for (auto &[cs, c] : s.calls) {
        uint64_t h = EstimateHead(c);
        MPos &q = x.pos[cs.first];
        q.count = std::max(q.count, h);
        q.targets[cs.second] += h;
      }
      for (auto &[k, q] : x.pos) x.total += q.count;
      want[n] = x;
    }
    std::string d = DiffProf(want, got, opt);
    if (!d.empty()) ctx.Fail("flat:selective", "threshold " + std::to_string(thr) + ": " + d);
    ctx.Check(nf == prof.size() && nfl == cold, "flat:counters", [&] { return std::to_string(nf) + " " + std::to_string(nfl); });
    if (cold && cold < prof.size()) ctx.Nontrivial(Mix(HashProf(prof), thr));
    ctx.Count("flattened_selectively");
  }
  absl::shim_internal::RuntimeSeed() = 0;
}

// ---- trimming, throttling, removal ----------------------------------------------
static void TrimModel(MSym &s, size_t k) {
  for (auto &[off, p] : s.pos) {
    if (p.targets.size() <= k) continue;
    std::vector<std::pair<std::string, uint64_t>> v(p.targets.begin(), p.targets.end());
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.second != b.second ? a.second > b.second : a.first < b.first; });
    v.resize(k);
    p.targets = {v.begin(), v.end()};
  }
  for (auto &[cs, c] : s.calls) TrimModel(c, k);
}
// Throttling is checked by rules; which of two equally hot callees goes is not specified.
static std::string ThrottleDiff(const MSym &a, const MSym &b, size_t k, const std::string &path, uint64_t *removed) {
  if (a.pos != b.pos) return path + ": positions changed";
  std::map<uint64_t, std::vector<std::pair<std::string, const MSym *>>> by;
  for (auto &[cs, c] : a.calls) by[cs.first].push_back({cs.second, &c});
  uint64_t gone = 0;
  for (auto &[cs, c] : b.calls) if (!a.calls.count(cs)) return path + ": new inlined callee " + cs.second;
  for (auto &[loc, v] : by) {
    size_t kept = 0;
    uint64_t min_kept = ~0ull, max_gone = 0;
    for (auto &[n, s] : v) {
      auto it = b.calls.find({loc, n});
      if (it == b.calls.end()) { gone += s->total; max_gone = std::max(max_gone, s->total); continue; }
      kept++;
      min_kept = std::min(min_kept, s->total);
      uint64_t sub = 0;
      std::string e = ThrottleDiff(*s, it->second, k, path + "@" + Hex(loc) + ":" + n, &sub);
      if (!e.empty()) return e;
      gone += sub;
    }
    if (kept != std::min(v.size(), k)) return path + ": " + std::to_string(kept) + " of " + std::to_string(v.size()) + " inlined callees left at " + Hex(loc) + ", limit " + std::to_string(k);
    if (kept < v.size() && kept && max_gone > min_kept) return path + ": a hotter inlined callee was removed at " + Hex(loc);
  }
  if (b.total + gone != a.total) return path + ": total " + std::to_string(a.total) + " became " + std::to_string(b.total) + " after removing " + std::to_string(gone);
  *removed = gone;
  return "";
}
VPROP(C13) {
  Rng &r = ctx.rng;
  GenOpt o = Opt(r);
  o.names = Names(r);
  o.max_line = 3; o.max_disc = r.Chance(1, 2) ? 0 : 1;
  o.max_calls = r.In(2, 9);
  o.max_depth = r.In(0, 3);
  if (r.Chance(1, 3)) o.count_bits = 2;
  MProf prof = GenProf(r, o);
  SymbolMap m;
  Populate(m, prof);
  int kind = r.Below(3);
  DiffOpt opt; opt.sub_head = false;
  if (kind == 0) {
    // More targets than the generator gives.
    for (auto &[n, s] : prof)
      for (auto &[off, p] : s.pos) if (r.Chance(1, 2)) {
        int nt = r.In(2, 8);
        for (int j = 0; j < nt; j++) {
          std::string t = r.Pick(o.names);
          uint64_t c = r.Chance(1, 2) ? r.Below(3) : r.Mag(o.count_bits);
          p.targets[t] += c;
          m.AddIndirectCallTarget(n, {SourceInfo(Intern(n), "", "", 0, off >> 32, static_cast<uint32_t>(off))}, t, c);
        }
      }
    int64_t k = r.In(0, 4);
    m.TrimCallTargets(k);
    MProf want = prof;
    for (auto &[n, s] : want) TrimModel(s, k);
    std::string d = DiffProf(want, FromMap(m), opt);
    if (!d.empty()) ctx.Fail("trim:model", "limit " + std::to_string(k) + ": " + d);
    if (HashProf(want) != HashProf(prof)) ctx.Nontrivial(Mix(HashProf(prof), k));
    ctx.Count("trims");
  } else if (kind == 1) {
    int k = r.In(-1, 5);
    absl::shim_internal::RuntimeSeed() = r.Next();
    m.throttleInlineInstancesAtSameLocation(k);
    MProf got = FromMap(m);
    uint64_t all = 0;
    for (auto &[n, s] : prof) {
      uint64_t gone = 0;
      std::string e = got.count(n) ? ThrottleDiff(s, got[n], k < 0 ? 1u << 30 : k, n, &gone) : n + " disappeared";
      if (!e.empty()) ctx.Fail("throttle:rule", "limit " + std::to_string(k) + ": " + e);
      all += gone;
      ctx.Check(got[n].head == s.head, "throttle:head", [&] { return n; });
    }
    ctx.Check(got.size() == prof.size(), "throttle:functions", [&] { return ""; });
    if (all) ctx.Nontrivial(Mix(HashProf(prof), k));
    ctx.Count("throttles");
    absl::shim_internal::RuntimeSeed() = 0;
  } else {
    // Removal by name or by whole-name regular expression.
    std::string re = r.PickOf<const char *>({"foo", ".*", "_Z.*", "fo", "b.r|main", "x?", "[a-m].*", "fn\\$1", "nothing"});
    bool regex = r.Chance(1, 2);
    std::string name = r.Pick(o.names);
    if (regex) m.RemoveSymsMatchingRegex(re); else m.RemoveSymbol(name);
    auto hit = [&](const std::string &n) {
      if (!regex) return n == name;
      if (re == "foo" || re == "fo" || re == "nothing") return n == re;
      if (re == ".*") return true;
      if (re == "_Z.*") return n.rfind("_Z", 0) == 0;
      if (re == "b.r|main") return n == "main" || (n.size() == 3 && n[0] == 'b' && n[2] == 'r');
      if (re == "x?") return n.empty() || n == "x";
      if (re == "[a-m].*") return n[0] >= 'a' && n[0] <= 'm';
      return n == "fn$1";
    };
    // What is written afterwards: everything but the removed functions, unchanged.
    MProf want;
    for (auto &[n, s] : prof) if (!hit(n) && s.total > 0) { bool any; want[n] = Prune(s, &any); }
    WriteCfg c{lsp::SPF_Text};
    m.set_count_threshold(0);
    std::string path = ctx.Tmp("p"), err;
    ctx.Check(WriteL(path, m, c), "remove:write-failed", [] { return ""; });
    MProf got;
    if (!ReadDirect(path, &got, &err) && !want.empty()) ctx.Fail("remove:unreadable", err);
    DiffOpt o2; o2.num_inst = false;
    std::string d = DiffProf(want, got, o2);
    if (!d.empty()) ctx.Fail("remove:rule", (regex ? "regex " + re : "name " + name) + ": " + d);
    if (want.size() < prof.size()) ctx.Nontrivial(Mix(HashProf(prof), HashStr(re + name)));
    ctx.Count("removals");
  }
}

// ---- inclusive totals -------------------------------------------------------------
VPROP(C14) {
  Rng &r = ctx.rng;
  GenOpt o;
  int nf = r.PickOf<int>({2, 4, 8, 16});
  for (int i = 0; i < nf; i++) o.names.push_back("f" + std::to_string(i));
  std::vector<std::string> inl = {"i0", "i1", "i2", o.names[0], o.names[nf - 1]};
  int bits = r.PickOf<int>({4, 10, 16, 40});
  bool cyclic = r.Chance(2, 3);
  MProf prof;
  std::function<MSym(int, int)> gen = [&](int fi, int depth) {
    MSym s;
    int np = r.Below(4);
    for (int i = 0; i < np; i++) {
      MPos &p = s.pos[static_cast<uint64_t>(r.Below(30)) << 32];
      p.count = r.Mag(bits); p.num_inst = 1;
      int nt = r.Below(3);
      for (int j = 0; j < nt; j++) {
        int t = cyclic ? r.Below(nf) : fi + 1 < nf ? r.In(fi + 1, nf - 1) : -1;
        if (t >= 0) p.targets[o.names[t]] = r.Below(1 + prof["f" + std::to_string(t)].head);
        if (r.Chance(1, 8)) p.targets["external"] = 5;
      }
    }
    int nc = depth < 2 ? r.Below(3) : 0;
    for (int i = 0; i < nc; i++) s.calls[{static_cast<uint64_t>(r.Below(30)) << 32, r.Pick(inl)}] = gen(fi, depth + 1);
    for (auto &[k, p] : s.pos) s.total += p.count;
    for (auto &[k, c] : s.calls) s.total += c.total;
    return s;
  };
  for (int i = 0; i < nf; i++) prof["f" + std::to_string(i)].head = r.Chance(1, 4) ? 0 : 1 + r.Mag(bits);
  for (int i = 0; i < nf; i++) { std::string n = "f" + std::to_string(i); uint64_t h = prof[n].head; MSym s = gen(i, 0); s.head = h; prof[n] = s; }
  // Model: strongly connected components by reachability, then callees first.
  std::map<std::string, std::set<std::string>> edge, reach;
  std::function<void(const std::string &, const MSym &)> edges = [&](const std::string &n, const MSym &s) {
    for (auto &[off, p] : s.pos) for (auto &[t, c] : p.targets) if (prof.count(t)) edge[n].insert(t);
    for (auto &[cs, c] : s.calls) edges(n, c);
  };
  for (auto &[n, s] : prof) edges(n, s);
  for (auto &[n, s] : prof) {
    std::vector<std::string> todo(edge[n].begin(), edge[n].end());
    while (!todo.empty()) { std::string x = todo.back(); todo.pop_back(); if (reach[n].insert(x).second) for (auto &y : edge[x]) todo.push_back(y); }
  }
  auto same = [&](const std::string &a, const std::string &b) { return a == b || (reach[a].count(b) && reach[b].count(a)); };
  // Values with a bound of the rounding: single precision, truncated per call edge.
  struct Val { double v = 0, e = 0; };
  std::map<std::string, Val> incl;
  std::map<std::string, Val> inst;  // By path of the inlined instance.
  bool too_big = false;
  std::function<Val(const std::string &)> solve;
  std::function<Val(const std::string &, const std::string &, const MSym &)> instv = [&](const std::string &top, const std::string &path, const MSym &s) {
    // What this body's calls outside the component add, for itself and what is inlined in it.
    Val add;
    for (auto &[off, p] : s.pos)
      for (auto &[t, c] : p.targets)
        if (prof.count(t) && !same(top, t)) {
          double ct = prof[t].head ? prof[t].head : 1;
          Val x = solve(t);
          double v = x.v / ct * c;
          add.v += v;
          add.e += x.e / ct * c + 1 + v * 5e-7;
        }
    for (auto &[cs, sub] : s.calls) {
      std::string sp = path + "@" + Hex(cs.first) + ":" + cs.second;
      Val a = instv(top, sp, sub);
      inst[sp] = {sub.total + a.v, a.e};
      add.v += a.v;
      add.e += a.e;
    }
    return add;
  };
  solve = [&](const std::string &n) -> Val {
    auto it = incl.find(n);
    if (it != incl.end()) return it->second;
    Val sum;
    for (auto &[m2, s] : prof) if (same(n, m2)) { Val a = instv(m2, m2, s); sum.v += s.total + a.v; sum.e += a.e; }
    for (auto &[m2, s] : prof) if (same(n, m2)) incl[m2] = sum;
    if (sum.v > 1e17) too_big = true;
    return sum;
  };
  for (auto &[n, s] : prof) solve(n);
  if (too_big) { ctx.Count("skipped_too_large"); return; }
  absl::shim_internal::RuntimeSeed() = r.Next();
  SymbolMap m;
  Populate(m, prof);
  m.ComputeTotalCountIncl();
  absl::shim_internal::RuntimeSeed() = 0;
  MProf got = FromMap(m);
  int cycles = 0;
  auto close = [&](const Val &want, double g) { return std::abs(want.v - g) <= 1 + want.e + want.v * 1e-9; };
  for (auto &[n, s] : prof) {
    for (auto &[k, x] : prof) if (k != n && same(k, n)) cycles++;
    ctx.Check(close(incl[n], got[n].incl), "incl:function", [&] { return n + ": want " + std::to_string(incl[n].v) + " got " + std::to_string(got[n].incl) + " in " + ShowProf(prof).substr(0, 1500); });
    std::function<void(const std::string &, const MSym &)> rec = [&](const std::string &path, const MSym &g) {
      for (auto &[cs, sub] : g.calls) {
        std::string sp = path + "@" + Hex(cs.first) + ":" + cs.second;
        ctx.Check(close(inst[sp], sub.incl), "incl:inlined", [&] { return sp + ": want " + std::to_string(inst[sp].v) + " got " + std::to_string(sub.incl); });
        rec(sp, sub);
      }
    };
    rec(n, got[n]);
    ctx.Check(got[n].incl >= got[n].total || got[n].incl + 1 > got[n].total, "incl:below-total", [&] { return n; });
  }
  ctx.Count("functions", nf);
  if (cycles) ctx.Count("graphs_with_recursion");
  ctx.Nontrivial(HashProf(prof));
  ctx.Sample([&] { return ShowProf(prof); });
}

// ---- numbers about a whole profile -------------------------------------------------
VPROP(C15) {
  Rng &r = ctx.rng;
  GenOpt o = Opt(r);
  o.names = Names(r);
  o.max_line = r.PickOf<uint32_t>({20, 12000});
  MProf prof = GenProf(r, o);
  SymbolMap m;
  std::function<void(MSym &)> ni = [&](MSym &s) { for (auto &[k, p] : s.pos) p.num_inst = r.Below(5); for (auto &[k, c] : s.calls) ni(c); };
  for (auto &[n, s] : prof) ni(s);
  Populate(m, prof);
  uint64_t total = 0;
  for (auto &[n, s] : prof) total += s.total;
  ctx.Check(m.GetTotalSum() == total, "num:total", [&] { return std::to_string(m.GetTotalSum()); });
  ctx.Check(m.size() == prof.size(), "num:size", [&] { return std::to_string(m.size()); });
  // Emission threshold: a fraction of the total, at least 10.
  double frac = r.PickOf<double>({0.0, 0.000005, 0.001, 0.5});
  absl::SetFlag(&FLAGS_sample_threshold_frac, frac);
  {
    SymbolMap t;
    // Further names of a function do not count it again.
    if (r.Chance(1, 2)) for (auto &[n, s] : prof) for (int k = r.Below(3); k > 0; k--) t.AddAlias(n, "alias" + std::to_string(k) + "of" + n);
    Populate(t, prof);
    t.CalculateThreshold();
    double want = std::max(10.0, std::floor(total * frac));
    ctx.Check(std::abs(t.count_threshold() - want) <= 1 + want * 1e-12, "num:threshold", [&] { return "total " + std::to_string(total) + " frac " + std::to_string(frac) + " got " + std::to_string(t.count_threshold()); });
    SymbolMap t2;
    t2.CalculateThresholdFromTotalCount(total);
    ctx.Check(t2.count_threshold() == t.count_threshold(), "num:threshold-from-total", [&] { return std::to_string(t2.count_threshold()); });
    int64_t th = t.count_threshold();
    ctx.Check(!t.ShouldEmit(th) && t.ShouldEmit(th + 1), "num:should-emit", [&] { return std::to_string(th); });
  }
  absl::SetFlag(&FLAGS_sample_threshold_frac, 0.0);
  // Entry count.
  std::function<uint64_t(const MSym &)> entry = [&](const MSym &s) -> uint64_t {
    uint64_t lim = 10000ull << 32, best = lim, v = 0;
    for (auto &[off, p] : s.pos) if (off < best) { best = off; v = p.count; }
    // Several callees inlined at one position: any of them.
    for (auto &[cs, c] : s.calls) if (cs.first < best) { best = cs.first; v = entry(c); }
    return v;
  };
  std::function<bool(const MSym &)> tie = [&](const MSym &s) {
    for (auto a = s.calls.begin(); a != s.calls.end(); ++a) {
      auto b = std::next(a);
      if (b != s.calls.end() && b->first.first == a->first.first) return true;
      if (tie(a->second)) return true;
    }
    return false;
  };
  for (auto &[n, s] : prof)
    if (!tie(s)) ctx.Check(m.GetSymbolByName(n)->EntryCount() == entry(s), "num:entry-count", [&] { return n + ": want " + std::to_string(entry(s)) + " got " + std::to_string(m.GetSymbolByName(n)->EntryCount()); });
  // Summary.
  {
    uint64_t thr = r.Chance(1, 2) ? 0 : r.Mag(o.count_bits);
    m.set_count_threshold(thr);
    std::vector<uint32_t> cut;
    int nc = r.Below(8);
    for (int i = 0; i < nc; i++) cut.push_back(r.Below(1000000));
    std::sort(cut.begin(), cut.end());
    ProfileSummaryInformation in = ProfileSummaryComputer::Compute(m, cut);
    std::vector<uint64_t> counts;
    uint64_t heads = 0, nfun = 0;
    std::function<void(const MSym &)> col = [&](const MSym &s) { for (auto &[k, p] : s.pos) counts.push_back(p.count); for (auto &[k, c] : s.calls) col(c); };
    for (auto &[n, s] : prof) if (s.total > thr) { nfun++; heads = std::max(heads, s.head); col(s); }
    std::sort(counts.rbegin(), counts.rend());
    unsigned __int128 sum = 0;
    for (auto c : counts) sum += c;
    auto say = [&](const char *w, uint64_t a, uint64_t b) { return std::string(w) + ": want " + std::to_string(a) + " got " + std::to_string(b); };
    ctx.Check(in.total_count_ == static_cast<uint64_t>(sum), "summary:total", [&] { return say("total", static_cast<uint64_t>(sum), in.total_count_); });
    ctx.Check(in.max_count_ == (counts.empty() ? 0 : counts[0]), "summary:max", [&] { return say("max", counts.empty() ? 0 : counts[0], in.max_count_); });
    ctx.Check(in.max_function_count_ == heads, "summary:max-function", [&] { return say("max function", heads, in.max_function_count_); });
    ctx.Check(in.num_counts_ == counts.size(), "summary:num-counts", [&] { return say("num counts", counts.size(), in.num_counts_); });
    ctx.Check(in.num_functions_ == nfun, "summary:num-functions", [&] { return say("num functions", nfun, in.num_functions_); });
    if (ctx.Check(in.detailed_summaries_.size() == cut.size(), "summary:cutoffs", [&] { return say("cutoffs", cut.size(), in.detailed_summaries_.size()); }))
      for (size_t i = 0; i < cut.size(); i++) {
        // The hottest counts that together reach the cutoff; equal counts go together.
        unsigned __int128 need = sum * cut[i] / 1000000, acc = 0;
        size_t k = 0;
        uint64_t min = 0;
        while (acc < need && k < counts.size()) { min = counts[k]; while (k < counts.size() && counts[k] == min) acc += counts[k++]; }
        auto &d = in.detailed_summaries_[i];
        ctx.Check(d.cutoff_ == cut[i] && d.min_count_ == min && d.num_counts_ == k, "summary:detail", [&] {
          return "cutoff " + std::to_string(cut[i]) + ": want min " + std::to_string(min) + " over " + std::to_string(k) + " got cutoff " + std::to_string(d.cutoff_) + " min " + std::to_string(d.min_count_) + " over " + std::to_string(d.num_counts_); });
      }
  }
  // Working sets: bucket i is reached by the hottest instructions covering i+1 of 129 parts.
  {
    SymbolMap w;
    Populate(w, prof);
    w.ComputeWorkingSets();
    std::map<uint64_t, uint64_t, std::greater<uint64_t>> hist;
    unsigned __int128 all = 0;
    std::function<void(const MSym &)> col = [&](const MSym &s) { for (auto &[k, p] : s.pos) { hist[p.count] += p.num_inst; all += static_cast<unsigned __int128>(p.count) * p.num_inst; } for (auto &[k, c] : s.calls) col(c); };
    for (auto &[n, s] : prof) if (s.total) col(s);
    if (all < (static_cast<unsigned __int128>(1) << 62)) {
      uint64_t one = static_cast<uint64_t>(all) / 129;
      auto *ws = w.GetWorkingSets();
      uint64_t prev = 0;
      for (int b = 0; b < 128; b++) {
        // The count at which the running sum first exceeds the bucket's share.
        unsigned __int128 goal = static_cast<unsigned __int128>(one) * (b + 1), acc = 0;
        uint64_t min = 0, inst = 0;
        for (auto &[c, k] : hist) {
          if (static_cast<unsigned __int128>(c) * k + acc > goal) { min = c; inst += static_cast<uint64_t>((goal - acc) / c); break; }
          acc += static_cast<unsigned __int128>(c) * k;
          inst += k;
        }
        if (all == 0) { min = 0; inst = 0; }
        ctx.Check(ws[b].min_counter == min, "ws:min", [&] { return "bucket " + std::to_string(b) + ": want " + std::to_string(min) + " got " + std::to_string(ws[b].min_counter); });
        ctx.Check(ws[b].num_counters >= prev, "ws:monotone", [&] { return "bucket " + std::to_string(b); });
        ctx.Check(ws[b].num_counters == static_cast<uint32_t>(inst), "ws:inst", [&] { return "bucket " + std::to_string(b) + ": want " + std::to_string(inst) + " got " + std::to_string(ws[b].num_counters); });
        prev = ws[b].num_counters;
      }
      ctx.Count("working_sets");
    }
  }
  // Overlap with another profile.
  {
    MProf other = r.Chance(1, 6) ? prof : GenProf(r, o);
    SymbolMap a, b;
    Populate(a, prof);
    Populate(b, other);
    double ta = total, tb = 0, want = 0;
    for (auto &[n, s] : other) tb += s.total;
    if (ta > 0 && tb > 0)
      for (auto &[n, s] : prof) if (other.count(n)) want += std::min(s.total / ta, other[n].total / tb);
    float ab = a.Overlap(b), ba = b.Overlap(a);
    ctx.Check(std::abs(ab - want) < 1e-4, "overlap:value", [&] { return "want " + std::to_string(want) + " got " + std::to_string(ab); });
    ctx.Check(std::abs(ab - ba) < 1e-4, "overlap:symmetric", [&] { return std::to_string(ab) + " " + std::to_string(ba); });
  }
  // Scaling.
  {
    double ratio = r.PickOf<double>({0.0, 0.5, 1.0, 0.25, 2.0, 3.0});
    MProf want = prof;
    std::function<void(MSym &)> sc = [&](MSym &s) {
      auto f = [&](uint64_t v) { return static_cast<uint64_t>(roundl(v * static_cast<double>(ratio))); };
      s.total = f(s.total); s.head = f(s.head);
      for (auto &[k, p] : s.pos) { p.count = f(p.count); for (auto &[t, c] : p.targets) c = f(c); }
      for (auto &[k, c] : s.calls) sc(c);
    };
    for (auto &[n, s] : want) sc(s);
    m.UpdateWithRatio(ratio);
    DiffOpt opt; opt.num_inst = false;
    std::string d = DiffProf(want, FromMap(m), opt);
    if (!d.empty()) ctx.Fail("num:ratio", std::to_string(ratio) + ": " + d);
  }
  ctx.Nontrivial(HashProf(prof));
  ctx.Sample([&] { return ShowProf(prof); });
}
