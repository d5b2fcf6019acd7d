// link: core
// C03 source-level attribution, C04 symbol selection and address translation,
// C33 the list of profiled symbols.
#include "vcommon.h"
#include "vattrib.h"
#include "velf.h"
#include "vsym.h"
#include "addr2line.h"
#include "profile.h"
#include "profile_symbol_list.h"
#include "sample_reader.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
#include "llvm/IR/DebugInfoMetadata.h"
ABSL_DECLARE_FLAG(bool, use_lbr);
ABSL_DECLARE_FLAG(double, sample_threshold_frac);
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
ABSL_DECLARE_FLAG(bool, use_discriminator_encoding);
ABSL_DECLARE_FLAG(bool, use_discriminator_multiply_factor);
ABSL_DECLARE_FLAG(bool, use_fs_discriminator);
ABSL_DECLARE_FLAG(bool, use_base_only_in_fs_discriminator);
using namespace vh;

namespace {
struct FakeA2L : afdo::Addr2line {
  FakeA2L() : Addr2line("") {}
  bool Prepare() override { return true; }
  void GetInlineStack(uint64_t a, afdo::SourceStack *s) const override {
    auto it = m.find(a);
    if (it != m.end()) *s = it->second;
  }
  std::map<uint64_t, afdo::SourceStack> m;
};
struct FakeReader : afdo::SampleReader {
  std::map<uint64_t, uint64_t> a, t;
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> r, b;
  bool Read() override {
    for (auto &x : a) address_count_map_[x.first] += x.second;
    for (auto &x : t) address_timestamp_map_[x.first] = x.second;
    for (auto &x : r) range_count_map_[x.first] += x.second;
    for (auto &x : b) branch_count_map_[x.first] += x.second;
    return true;
  }
};

struct Layout {
  Elf elf;
  std::vector<ESeg> exec;  // Executable load segments, ascending.
  std::vector<Fn> fns;     // By address.
  std::vector<uint64_t> gaps;  // Some addresses outside every function.
  bool fs = false;
};

std::string RandName(Rng &r, std::set<std::string> &used) {
  for (;;) {
    std::string n = r.PickOf<const char *>({"_Z3fooi", "main", "bar", "_ZN1A1bEv", "x", "f", "ab", ".asmfn", "operator_new"});
    if (r.Chance(1, 2)) n += std::to_string(r.Below(50));
    switch (r.Below(14)) {
      case 0: n += ".cold"; break;
      case 1: n += ".__part." + std::to_string(r.Chance(1, 2) ? r.Below(3) : r.Below(2000)); break;
      case 2: n += ".llvm." + std::to_string(r.Below(1000)); break;
      case 3: n += ".isra.0"; break;
      case 4: n += ".lto_priv.2"; break;
      case 5: n += ".part.0"; break;
      case 6: n += ".lto_priv.1.cold"; break;
      case 7: n += "@@VER_1"; break;
    }
    if (used.insert(n).second) return n;
  }
}

Layout GenLayout(Rng &r, int max_fn, int max_size) {
  Layout L;
  L.elf.type = r.Chance(1, 2) ? ET_EXEC : ET_DYN;
  int nseg = 1 + r.Below(3);
  uint64_t off = 0x1000 * (1 + r.Below(3)), va = off + (r.Chance(1, 2) ? 0 : 0x1000 * r.Below(0x400)) + (L.elf.type == ET_EXEC ? 0x400000 : 0);
  if (r.Chance(1, 2)) L.elf.segs.push_back({PT_LOAD, PF_R, 0, L.elf.type == ET_EXEC ? 0x400000u : 0u, 0x400, 0x400});
  std::set<std::string> used;
  int text = 0;
  // 32-bit ARM: everything is even, and the lowest bit tells Thumb functions.
  bool arm = r.Chance(1, 12);
  for (int s = 0; s < nseg; s++) {
    std::string secname = s == 0 ? ".text" : ".text" + std::to_string(s);
    uint64_t a = va + r.Below(64) / (arm ? 2 : 1) * (arm ? 2 : 1), start = a;
    int nf = r.Below(max_fn) + (s == 0);
    for (int f = 0; f < nf; f++) {
      Fn fn;
      fn.name = RandName(r, used);
      fn.addr = a;
      fn.size = 1 + r.Below(max_size);
      if (arm) fn.size += fn.size & 1;
      if (r.Chance(1, 8))
        for (int k = 1 + r.Below(2); k > 0; --k) fn.aliases.push_back(RandName(r, used));
      a += fn.size;
      if (r.Chance(1, 2)) {
        uint64_t g = 1 + r.Below(24);
        if (arm) g += g & 1;
        L.gaps.push_back(a + r.Below(g));
        a += g;
      }
      bool cold = fn.name.size() > 5 && fn.name.substr(fn.name.size() - 5) == ".cold";
      bool part = fn.name.find(".__part.") != std::string::npos;
      int type = (cold || part) && r.Chance(2, 3) ? STT_NOTYPE : STT_FUNC;
      uint64_t thumb = arm && type == STT_FUNC && r.Chance(1, 2);
      L.elf.syms.push_back({fn.name, fn.addr + thumb, fn.size, type, STB_GLOBAL, secname});
      // Aliases follow the first name in the table.
      for (auto &n : fn.aliases) L.elf.syms.push_back({n, fn.addr + (arm && r.Chance(1, 2)), fn.size, STT_FUNC, STB_GLOBAL, secname});
      L.fns.push_back(fn);
      if (arm) continue;
      // Symbols that are no functions at the same or at other places.
      if (r.Chance(1, 6)) L.elf.syms.push_back({"obj" + std::to_string(text++), fn.addr + r.Below(2), 8, STT_OBJECT, STB_GLOBAL, secname});
      if (r.Chance(1, 8)) L.elf.syms.push_back({"label" + std::to_string(text++), fn.addr + fn.size / 2, 0, STT_FUNC, STB_GLOBAL, secname});
      if (r.Chance(1, 8)) L.elf.syms.push_back({"lab" + std::to_string(text++), fn.addr + fn.size / 2, 4, STT_NOTYPE, STB_GLOBAL, secname});
      if (r.Chance(1, 8)) L.elf.syms.push_back({"ext" + std::to_string(text++) + "@plt", a, 3, STT_FUNC, STB_GLOBAL, secname}), a += 3 + r.Below(4);
      if (r.Chance(1, 10)) L.elf.syms.push_back({"und" + std::to_string(text++), 0, 0, STT_FUNC, STB_GLOBAL, "UND"});
    }
    uint64_t size = a - va + 16;
    ESec t;
    t.name = secname;
    t.flags = SHF_ALLOC | SHF_EXECINSTR;
    t.addr = start;
    t.data = std::string(a - start, '\x90');
    t.offset = off + (start - va);
    L.elf.secs.push_back(t);
    ESeg g{PT_LOAD, static_cast<uint32_t>(PF_R | PF_X), off, va, size, size};
    L.elf.segs.push_back(g);
    L.exec.push_back(g);
    // The next segment; the distance between offsets and addresses changes.
    uint64_t adv = ((size + 0xfff) & ~0xfffull) + 0x1000 * r.Below(3);
    if (r.Chance(1, 3)) {
      L.elf.segs.push_back({PT_LOAD, PF_R | PF_W, off + adv, va + adv + 0x1000, 0x10, 0x100});
      off += adv + 0x1000, va += adv + 0x2000;
    } else {
      off += adv, va += adv + 0x1000 * r.Below(3);
    }
  }
  if (r.Chance(1, 10)) {
    L.fs = true;
    L.elf.syms.push_back({"__llvm_fs_discriminator__", va + 0x100000, 1, STT_OBJECT, STB_GLOBAL, "ABS"});
  }
  L.elf.bits32 = arm || r.Chance(1, 8);
  if (L.elf.bits32) L.elf.machine = arm ? EM_ARM : EM_386;
  L.elf.extended = r.Chance(1, 12);
  return L;
}
const Fn *FnAt(const Layout &L, uint64_t va) { return FnAt(L.fns, va); }
}  // namespace

VPROP(C03) {
  Rng &r = ctx.rng;
  Layout L = GenLayout(r, 5, 40);
  std::string bin = ctx.Tmp("bin");
  WriteFile(bin, L.elf.Build());
  bool lbr = r.Chance(2, 3), multiply = r.Chance(1, 2), enc = r.Chance(1, 2), fsflag = r.Chance(1, 8), base_only = r.Chance(1, 4);
  std::string policy = r.PickOf<const char *>({"all", "selected", "none"});
  double frac = r.Chance(1, 4) ? r.Below(200) / 1000.0 : 0.0;
  absl::SetFlag(&FLAGS_use_lbr, lbr);
  absl::SetFlag(&FLAGS_use_discriminator_multiply_factor, multiply);
  absl::SetFlag(&FLAGS_use_discriminator_encoding, enc);
  absl::SetFlag(&FLAGS_use_fs_discriminator, fsflag);
  absl::SetFlag(&FLAGS_use_base_only_in_fs_discriminator, base_only);
  absl::SetFlag(&FLAGS_suffix_elision_policy, policy);
  absl::SetFlag(&FLAGS_sample_threshold_frac, frac);
  bool fs = L.fs || fsflag;

  // Source stacks: each function has inline trees over line tables.
  FakeA2L a2l;
  std::vector<std::string> inl = {"_Z5inl_av", "inl_b", "main", "x"};
  for (auto &f : L.fns) {
    uint32_t start = 1 + r.Below(100);
    int mode = r.Below(10);  // 0: no debug information for the function.
    std::vector<afdo::SourceStack> pool;
    int np = 1 + r.Below(6);
    for (int i = 0; i < np; i++) {
      afdo::SourceStack st;
      int depth = 1 + (r.Chance(1, 2) ? r.Below(4) : 0);
      for (int d = 0; d < depth; d++) {
        bool outer = d == depth - 1;
        uint32_t sl = outer ? start : 1 + r.Below(50);
        uint32_t line = sl + r.Below(8);
        if (r.Chance(1, 12)) sl = 0;
        if (r.Chance(1, 12)) line = 0;
        if (r.Chance(1, 20) && sl > 1) line = sl - 1;
        uint32_t disc = r.Chance(1, 2) ? 0 : r.Chance(1, 3) ? static_cast<uint32_t>(r.Next()) : r.Below(512);
        st.push_back(afdo::SourceInfo(Intern(outer ? f.name : r.Pick(inl)), "/d", r.PickOf<const char *>({"a.cc", "b.h", ""}), sl, line, disc));
      }
      pool.push_back(st);
    }
    for (uint64_t a = f.addr; a < f.addr + f.size; a++)
      if (mode && r.Chance(9, 10)) a2l.m[a] = r.Pick(pool);
  }
  // Samples, by file offset.
  FakeReader rd;
  auto to_off = [&](uint64_t va) {
    for (auto &g : L.exec)
      if (va >= g.vaddr && va - g.vaddr < g.memsz) return va - g.vaddr + g.offset;
    return va;
  };
  int bits = r.Chance(1, 5) ? 38 : 10;
  auto any_addr = [&]() -> uint64_t {
    if (!L.gaps.empty() && r.Chance(1, 12)) return r.Pick(L.gaps);
    auto &f = r.Pick(L.fns);
    return f.addr + r.Below(f.size);
  };
  int n = r.Below(30);
  bool have_addr = !lbr || r.Chance(1, 2);
  for (int i = 0; have_addr && i < n; i++) {
    uint64_t o = to_off(any_addr());
    rd.a[o] += 1 + r.Mag(bits);
    if (r.Chance(3, 4)) rd.t[o] = r.Below(4) ? 1 + r.Below(1000) : 0;
  }
  if (lbr || r.Chance(1, 4))
    for (int i = 0; i < n; i++) {
      uint64_t b = any_addr(), e = b;
      const Fn *f = FnAt(L, b);
      if (f) e = std::min(b + r.Below(12), f->addr + f->size - 1 + (r.Chance(1, 8) ? r.Below(6) : 0));
      rd.r[{to_off(b), to_off(b) + (e - b)}] += 1 + r.Mag(bits);
    }
  n = r.Below(12);
  if (lbr || r.Chance(1, 4))
    for (int i = 0; i < n; i++) {
      uint64_t to = r.Chance(3, 4) ? r.Pick(L.fns).addr : any_addr();
      rd.b[{to_off(any_addr()), to_off(to)}] += 1 + r.Mag(bits);
    }

  // The expected profile.
  auto to_va = [&](uint64_t o) {
    uint64_t v = o;
    for (auto &g : L.exec)
      if (o >= g.offset) v = o - g.offset + g.vaddr;
    return v;
  };
  Attrib at;
  at.fns = L.fns;
  at.stack = [&](uint64_t a) -> const afdo::SourceStack * { auto it = a2l.m.find(a); return it == a2l.m.end() ? nullptr : &it->second; };
  at.lbr = lbr; at.multiply = multiply; at.enc = enc; at.fs = fs; at.base_only = base_only; at.policy = policy; at.frac = frac;
  for (auto &[o, c] : rd.a) at.addrs[to_va(o)] += c;
  for (auto &[k, c] : rd.r) at.ranges[{to_va(k.first), to_va(k.second)}] += c;
  for (auto &[k, c] : rd.b) at.branches[{to_va(k.first), to_va(k.second)}] += c;
  at.Compute();
  MProf &want = at.want;
  afdo::SymbolMap map(bin);
  map.ReadLoadableExecSegmentInfo(false);
  rd.ReadAndSetTotalCount();
  ctx.Check(rd.GetTotalCount() == static_cast<uint64_t>(at.total), "reader total", [&] { return "total " + std::to_string(rd.GetTotalCount()); });
  {
    afdo::Profile prof(&rd, bin, &a2l, &map);
    prof.ComputeProfile();
  }
  MProf got = FromMap(map);
  at.Settle(&want, &got);
  DiffOpt o;
  std::string d = DiffProf(want, got, o);
  ctx.Check(d.empty(), "attributed profile", [&] { return d + "\nlbr=" + std::to_string(lbr) + " policy=" + policy + "\nwant " + ShowProf(want) + "\ngot " + ShowProf(got); });
  // First-seen time of functions that stand for themselves.
  for (auto &f : L.fns) {
    if (!at.Emitted(f) || !f.aliases.empty() || CanonName(policy, f.name) != f.name) continue;
    if (at.final_of.count(f.name) == 0) continue;
    uint64_t want_ts = 0;
    for (auto &[o, t] : rd.t) {
      if (FnAt(L, to_va(o)) == &f && t && !want_ts) want_ts = t;
    }
    bool alone = true;
    for (auto &[nm, ob] : at.obj_of)
      if (nm != f.name && at.Find(ob) == at.Find(at.obj_of[f.name])) alone = false;
    if (!alone) continue;
    auto it = map.map().find(f.name);
    if (it == map.map().end()) continue;
    ctx.Check(it->second->timestamp == want_ts, "timestamp", [&] { return f.name + " timestamp want " + std::to_string(want_ts) + " got " + std::to_string(it->second->timestamp); });
    ctx.Count("timestamps_checked", want_ts != 0);
  }
  ctx.Count("functions_emitted", at.obj_of.size());
  ctx.Count("addresses_attributed", at.attributed);
  ctx.Count("branches", rd.b.size());
  if (at.attributed) ctx.Nontrivial(HashProf(want));
  ctx.Sample([&] { return std::string(lbr ? "lbr " : "addresses ") + ShowProf(want); });
}

VPROP(C04) {
  Rng &r = ctx.rng;
  absl::SetFlag(&FLAGS_suffix_elision_policy, "selected");
  absl::SetFlag(&FLAGS_use_fs_discriminator, false);
  Layout L = GenLayout(r, 8, 60);
  bool kernel = r.Chance(1, 3);
  bool ko = !kernel && r.Chance(1, 6);
  if (ko) {
    L.elf.type = ET_REL;
    L.elf.segs.clear();
    // The sections of a module start at the same address; .text counts.
    auto &secs = L.elf.secs;
    uint64_t end = secs.size() > 1 ? secs[1].addr : ~0ull, base = r.Chance(2, 3) ? 0 : secs[0].addr, d = secs[0].addr - base;
    L.fns.erase(std::remove_if(L.fns.begin(), L.fns.end(), [&](const Fn &f) { return f.addr >= end; }), L.fns.end());
    for (auto &f : L.fns) f.addr -= d;
    for (auto &g : L.gaps) if (g < end) g -= d;
    const char *const kNames[] = {".text", ".init.text", ".exit.text", ".text.unlikely"};
    for (size_t i = 0; i < secs.size(); i++) {
      uint64_t by = secs[i].addr - base;
      std::string was = secs[i].name;
      for (auto &y : L.elf.syms) if (y.sec == was) { y.value -= by; y.sec = kNames[i]; }
      secs[i].addr = base;
      secs[i].name = kNames[i];
    }
    if (secs.size() > 1) { ctx.Count("modules_with_other_sections"); if (r.Chance(1, 2)) std::reverse(secs.begin() + 1, secs.end()); if (r.Chance(1, 2)) std::stable_partition(L.elf.syms.begin(), L.elf.syms.end(), [](auto &y) { return y.sec != ".text"; }); }
  }
  std::string bin = ctx.Tmp(ko ? "m.ko" : "bin");
  if (r.Chance(1, 3)) r.Shuffle(L.elf.segs), std::sort(L.elf.segs.begin(), L.elf.segs.end(), [](auto &a, auto &b) { return a.vaddr < b.vaddr; });
  WriteFile(bin, L.elf.Build());
  afdo::SymbolMap map(bin);
  map.ReadLoadableExecSegmentInfo(kernel);
  // Symbols.
  std::map<std::string, uint64_t> want_names;
  for (auto &f : L.fns) want_names[f.name] = f.addr;
  std::map<std::string, uint64_t> got_names;
  for (auto &[n, a] : map.GetNameAddrMap()) got_names[std::string(n)] = a;
  got_names.erase("__llvm_fs_discriminator__");
  ctx.Check(want_names == got_names, "selected symbols", [&] {
    std::string m;
    for (auto &[n, a] : want_names)
      if (!got_names.count(n)) m += " missing " + n;
      else if (got_names[n] != a) m += " moved " + n;
    for (auto &[n, a] : got_names)
      if (!want_names.count(n)) m += " unexpected " + n;
    return m;
  });
  ctx.Check(afdo::SourceInfo::use_fs_discriminator == L.fs, "fs discriminator marker", [&] { return std::string("marker ") + (L.fs ? "present" : "absent"); });
  std::vector<uint64_t> probes = L.gaps;
  for (auto &f : L.fns) {
    probes.push_back(f.addr);
    probes.push_back(f.addr - 1);
    probes.push_back(f.addr + f.size - 1);
    probes.push_back(f.addr + f.size);
    probes.push_back(f.addr + r.Below(f.size));
  }
  probes.push_back(0);
  probes.push_back(~0ull);
  for (uint64_t a : probes) {
    const Fn *f = FnAt(L, a);
    if (L.fs && !f) continue;  // The marker itself may be found.
    const std::string *nm = nullptr;
    uint64_t s = 0, e = 0;
    bool ok = map.GetSymbolInfoByAddr(a, &nm, &s, &e);
    ctx.Check(ok == (f != nullptr), "symbol of an address", [&] { return Hex(a) + (f ? " is in " + f->name + " but has no symbol" : " is in no function but has " + *nm); });
    if (ok && f) ctx.Check(*nm == f->name && s == f->addr && e == f->addr + f->size, "symbol of an address", [&] { return Hex(a) + " want " + f->name + " got " + *nm + " [" + Hex(s) + "," + Hex(e) + ")"; });
    const std::string *sn = map.GetSymbolNameByStartAddr(a);
    ctx.Check((sn != nullptr) == (f && f->addr == a) && (!sn || *sn == f->name), "symbol starting at an address", [&] { return Hex(a) + " " + (sn ? *sn : "none"); });
  }
  ctx.Count("addresses_probed", probes.size());
  // Aliases.
  for (auto &f : L.fns) {
    map.AddSymbol(f.name);
    for (auto &al : f.aliases) {
      auto it = map.map().find(al);
      ctx.Check(it != map.map().end() && it->second == map.map().find(f.name)->second, "alias", [&] { return al + " is not the same function as " + f.name; });
      ctx.Count("aliases");
    }
  }
  // Offsets and addresses.
  std::vector<std::pair<uint64_t, uint64_t>> segs;
  if (ko) {
    segs.push_back({L.elf.secs[0].offset, L.elf.secs[0].addr});
  } else {
    for (auto &g : L.exec) segs.push_back({g.offset - (kernel ? L.exec[0].offset : 0), g.vaddr});
  }
  for (size_t i = 0; i < L.exec.size(); i++) {
    if (ko && i) break;
    for (int k = 0; k < 6; k++) {
      uint64_t d = k == 0 ? 0 : r.Below(ko ? L.elf.secs[0].data.size() : L.exec[i].filesz);
      uint64_t off = segs[i].first + d, va = segs[i].second + d;
      ctx.Check(map.get_static_vaddr(off) == va, "offset to address", [&] { return "offset " + Hex(off) + " want " + Hex(va) + " got " + Hex(map.get_static_vaddr(off)); });
      ctx.Check(map.GetFileOffsetFromStaticVaddr(va) == off, "address to offset", [&] { return "address " + Hex(va) + " want " + Hex(off) + " got " + Hex(map.GetFileOffsetFromStaticVaddr(va)); });
    }
  }
  ctx.Count(ko ? "modules" : kernel ? "kernels" : "programs");
  // Functions with samples are among those whose line tables are read.
  std::set<uint64_t> sampled, fn_starts;
  int n = 1 + r.Below(10);
  for (int i = 0; i < n && !ko; i++) {
    auto &f = r.Pick(L.fns);
    uint64_t va = f.addr + r.Below(f.size), d = 0;
    for (size_t s = 0; s < L.exec.size(); s++)
      if (va >= L.exec[s].vaddr && va - L.exec[s].vaddr < L.exec[s].memsz) d = va - L.exec[s].vaddr + segs[s].first;
    sampled.insert(d);
    fn_starts.insert(f.addr);
  }
  std::string one = "";
  if (!L.fns.empty() && r.Chance(1, 2)) {
    auto &f = r.Pick(L.fns);
    auto it = map.map().find(f.name);
    it->second->total_count = 5;
    fn_starts.insert(f.addr);
  }
  if (!ko) {
    auto m = map.GetSampledSymbolStartAddressSizeMap(sampled);
    for (uint64_t a : fn_starts) {
      const Fn *f = FnAt(L, a);
      ctx.Check(m.count(a) && m[a] == f->size, "sampled functions", [&] { return f->name + " at " + Hex(a) + " has samples but is not listed with its size"; });
    }
    for (auto &[a, s] : m) {
      bool known = fn_starts.count(a);
      ctx.Check(known, "sampled functions", [&, a = a] { return Hex(a) + " is listed without samples"; });
    }
  }
  uint64_t h = kernel * 2 + ko;
  for (auto &f : L.fns) h = Mix(h, f.addr + HashStr(f.name));
  ctx.Nontrivial(h);
  ctx.Sample([&] {
    std::string s = kernel ? "kernel" : ko ? "module" : "program";
    for (auto &g : segs) s += " seg " + Hex(g.first) + "->" + Hex(g.second);
    for (auto &f : L.fns) s += " " + f.name + "@" + Hex(f.addr) + "+" + std::to_string(f.size);
    return s;
  });
}

VPROP(C33) {
  Rng &r = ctx.rng;
  std::string policy = r.PickOf<const char *>({"all", "selected", "none"});
  absl::SetFlag(&FLAGS_suffix_elision_policy, policy);
  absl::SetFlag(&FLAGS_use_fs_discriminator, false);
  Layout L = GenLayout(r, 8, r.Chance(1, 3) ? 4 : 200);
  if (L.fs) {
    L.fs = false;
    L.elf.syms.pop_back();
  }
  std::string bin = ctx.Tmp("bin");
  WriteFile(bin, L.elf.Build());
  afdo::SymbolMap map(bin);
  // A profile over some of the functions: as tops, as inlined callees and as call targets.
  MProf prof;
  GenOpt go;
  go.max_depth = 2;
  go.count_bits = 6;
  std::set<std::string> extra;
  for (auto &f : L.fns) {
    if (r.Chance(1, 3)) go.names.push_back(f.name);
  }
  go.names.push_back("unrelated");
  for (int i = 0, n = r.Below(5); i < n; i++) {
    std::string nm = r.Pick(go.names);
    bool is_alias_like = false;
    for (auto &f : L.fns)
      if (f.name == nm && !f.aliases.empty()) is_alias_like = true;
    if (!is_alias_like) prof[nm] = GenSym(r, go);
  }
  Populate(map, prof);
  std::set<std::string> in_profile;
  std::function<void(const MSym &)> collect = [&](const MSym &s) {
    for (auto &[o, p] : s.pos)
      for (auto &[t, c] : p.targets) in_profile.insert(CanonName(policy, t));
    for (auto &[cs, x] : s.calls) {
      in_profile.insert(cs.second);
      collect(x);
    }
  };
  for (auto &[n, s] : prof) {
    if (s.total == 0) continue;
    in_profile.insert(n);
    collect(s);
  }
  auto nsl = map.collectNamesForProfSymList();
  std::multiset<std::pair<std::string, uint64_t>> want, got;
  for (auto &f : L.fns)
    if (!in_profile.count(f.name) && !in_profile.count(CanonName(policy, f.name))) want.insert({f.name, f.size});
  for (auto &[n, s] : nsl) got.insert({n.str(), s});
  ctx.Check(want == got, "candidates of the symbol list", [&] {
    std::string m;
    for (auto &x : want)
      if (!got.count(x)) m += " missing " + x.first;
    for (auto &x : got)
      if (!want.count(x)) m += " unexpected " + x.first;
    return m;
  });
  double ratio = r.PickOf({0.0, 1.0, 0.5, 0.9, 0.99, r.Below(1001) / 1000.0, 0.25});
  llvm::sampleprof::ProfileSymbolList list;
  afdo::fillProfileSymbolList(&list, nsl, &map, ratio);
  // The biggest functions are kept up to the covering size.
  std::vector<uint64_t> sizes;
  uint64_t total = 0;
  for (auto &w : want) sizes.push_back(w.second), total += w.second;
  std::sort(sizes.rbegin(), sizes.rend());
  std::set<std::string> wl;
  uint64_t thr = static_cast<uint64_t>(total * ratio);
  if (!sizes.empty() && ratio > 0 && sizes[0] <= thr) {
    uint64_t sum = 0, cutoff = 0;
    for (auto s : sizes) {
      sum += s;
      cutoff = s;
      if (sum >= thr) break;
    }
    for (auto &w : want)
      if (w.second >= cutoff) wl.insert(CanonName(policy, w.first));
  }
  unsigned found = 0;
  for (auto &f : L.fns) {
    for (const std::string &n : {f.name, CanonName(policy, f.name)}) {
      bool in = list.contains(n);
      ctx.Check(in == (wl.count(n) != 0), "symbol list", [&] { return n + (in ? " is listed" : " is not listed") + " ratio " + std::to_string(ratio) + " threshold " + std::to_string(thr); });
    }
  }
  found = list.size();
  // Sizes of every magnitude, as a list alone.
  if (!nsl.empty() && r.Chance(1, 3)) {
    uint64_t most = 1;
    for (auto &[n, s] : nsl) most += s + 1;
    // Up to 2^50, far more than an address space, and still exact as a double.
    int shift = r.Below(std::max(1, __builtin_clzll(most) - 14));
    afdo::NameSizeList big = nsl;
    for (auto &[n, s] : big) s = (s << shift) + (shift ? r.Below(1ull << shift) : 0);
    llvm::sampleprof::ProfileSymbolList bl;
    afdo::fillProfileSymbolList(&bl, big, &map, ratio);
    std::vector<uint64_t> bs;
    uint64_t bt = 0;
    for (auto &[n, s] : big) bs.push_back(s), bt += s;
    std::sort(bs.rbegin(), bs.rend());
    std::set<std::string> expected[3];
    // The share may be rounded either way.
    uint64_t at = static_cast<uint64_t>(bt * ratio), off = 1 + (bt >> 50);
    for (int k = 0; k < 3; k++) {
      uint64_t t = k == 0 ? at : k == 1 ? at + off : at - std::min(at, off), sum = 0, cutoff = 0;
      if (ratio == 0 || bs[0] > t) continue;
      for (auto x : bs) {
        sum += x;
        cutoff = x;
        if (sum >= t) break;
      }
      for (auto &[n, s] : big)
        if (s >= cutoff) expected[k].insert(CanonName(policy, n.str()));
    }
    std::set<std::string> have;
    for (auto &[n, s] : big)
      for (const std::string &c : {n.str(), CanonName(policy, n.str())})
        if (bl.contains(c)) have.insert(c);
    ctx.Check(have == expected[0] || have == expected[1] || have == expected[2], "symbol list of big sizes", [&] {
      return std::to_string(have.size()) + " of " + std::to_string(big.size()) + " functions are listed, expected " + std::to_string(expected[0].size()) + ", ratio " + std::to_string(ratio) + ", total " + std::to_string(bt);
    });
    ctx.Count("big_lists");
  }
  ctx.Check(found == wl.size(), "symbol list size", [&] { return "want " + std::to_string(wl.size()) + " got " + std::to_string(found); });
  ctx.Count("listed", found);
  ctx.Count("candidates", want.size());
  uint64_t h = HashStr(policy) + thr;
  for (auto &n : wl) h = Mix(h, HashStr(n));
  if (!wl.empty()) ctx.Nontrivial(h);
  ctx.Sample([&] {
    std::string s = "ratio " + std::to_string(ratio) + " policy " + policy + ":";
    for (auto &n : wl) s += " " + n;
    return s;
  });
}
