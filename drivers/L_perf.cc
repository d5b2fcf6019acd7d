// link: core prop
// Perf data readers of the LLVM tools: mapping selection and address translation (C18),
// LBR and SPE aggregation (C19), SPE processes and sample reader (C20), range inference (C22),
// perf data files (C34).
#include <sys/stat.h>
#include <unistd.h>
#include "absl_shim.h"
#include "branch_frequencies_autofdo_sample.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_statistics.h"
#include "perfdata_reader.h"
#include "profile_creator.h"
#include "spe_sample_reader.h"
#include "spe_tid_pid_provider.h"
#include "vcommon.h"
#include "velf.h"
#include "vperf.h"

using namespace vh;
ABSL_DECLARE_FLAG(bool, disassemble_arm_branches);
namespace afdo = devtools_crosstool_autofdo;

namespace {
constexpr uint64_t kBad = ~0ull;
constexpr uint32_t kKernel = 0xffffffffu;

enum Kind { kNone, kPlain, kBranch };  // What an instruction can do to the control flow; kNone: no instruction.
struct Bin {
  std::string path, id;
  bool pie = false, ko = false, arm = false;
  struct Seg { uint64_t off, vaddr, memsz; };
  std::vector<Seg> segs;  // Executable ones.
  std::map<uint64_t, Kind> insts;  // Instruction starts in the text sections.
  std::vector<std::pair<uint64_t, uint64_t>> text;  // [begin, end) of the text sections.
  std::map<std::string, std::string> modinfo;
  int text_index = -1;
  bool InText(uint64_t a) const {
    for (auto &[b, e] : text) if (a >= b && a < e) return true;
    return false;
  }
};

std::string Code(Rng &r, bool arm, uint64_t addr, size_t len, std::map<uint64_t, Kind> *insts) {
  struct I { const char *bytes; int n; Kind k; };
  static const std::vector<I> x86 = {{"\x90", 1, kPlain}, {"\xc3", 1, kBranch}, {"\xe8\0\0\0\0", 5, kBranch}, {"\xeb\0", 2, kBranch}, {"\x74\0", 2, kBranch},
                                     {"\xff\xe0", 2, kBranch}, {"\xff\xd0", 2, kBranch}, {"\x89\xc0", 2, kPlain}, {"\x48\x89\xe5", 3, kPlain}, {"\x55", 1, kPlain}, {"\x06", 1, kNone}};
  static const std::vector<I> a64 = {{"\x1f\x20\x03\xd5", 4, kPlain}, {"\xc0\x03\x5f\xd6", 4, kBranch}, {"\0\0\0\x14", 4, kBranch}, {"\0\0\0\x54", 4, kBranch}, {"\0\0\0\xb4", 4, kBranch},
                                     {"\0\0\0\x94", 4, kBranch}, {"\x00\x00\x80\xd2", 4, kPlain}, {"\xfd\x03\x00\x91", 4, kPlain}, {"\xff\xff\xff\xff", 4, kNone}};
  auto &t = arm ? a64 : x86;
  std::string s;
  while (s.size() < len) {
    const I &i = r.Chance(1, 2) ? t[0] : t[r.Below(t.size())];
    if (s.size() + i.n > len) {  // Cut off by the end of the section.
      if (!arm) { if (i.bytes[0] == '\x48') continue; (*insts)[addr + s.size()] = kNone; s.append(i.bytes, len - s.size()); }
      break;
    }
    (*insts)[addr + s.size()] = i.k;
    s.append(i.bytes, i.n);
  }
  return s;
}

Bin GenBin(Ctx &ctx, int arm /* -1: either */, bool may_ko) {
  Rng &r = ctx.rng;
  Bin b;
  Elf e;
  b.arm = arm < 0 ? r.Chance(1, 3) : arm;
  b.ko = may_ko && r.Chance(1, 6);
  b.pie = !b.ko && r.Chance(1, 2);
  e.type = b.ko ? ET_REL : b.pie ? ET_DYN : ET_EXEC;
  e.machine = b.arm ? EM_AARCH64 : EM_X86_64;
  b.path = ctx.Tmp(b.ko ? "mod.ko" : "bin");
  if (r.Chance(3, 4)) {
    b.id = RandHex(r, r.PickOf({40, 40, 32, 16}));
    e.AddBuildId(Unhex(b.id));
    if (r.Chance(1, 4)) e.secs.back().name = ".notes";
    auto note = [](const std::string &owner, uint32_t type, const std::string &desc) {
      std::string n;
      uint32_t h[3] = {static_cast<uint32_t>(owner.size() + 1), static_cast<uint32_t>(desc.size()), type};
      n.append(reinterpret_cast<const char *>(h), 12);
      n += owner + std::string(4 - owner.size() % 4, '\0') + desc;
      while (n.size() % 4) n += '\0';
      return n;
    };
    // Notes of other owners or types in the same section, and a later build id, do not matter.
    auto other = [&] {
      std::string d(r.PickOf<size_t>({4, 16, 20}), '\0');
      for (auto &c : d) c = static_cast<char>(r.Next());
      return r.Chance(1, 2) ? note("GNU", r.PickOf<uint32_t>({1, 2, 4, 5}), d) : note(r.PickOf<std::string>({"Linux", "Xen", "stapsdt", "Go"}), r.PickOf<uint32_t>({0x100, 3, 18}), d);
    };
    if (r.Chance(1, 4)) for (int k = r.In(1, 2); k > 0; k--) e.secs.back().data = other() + e.secs.back().data;
    if (r.Chance(1, 4)) e.secs.back().data += other();
    if (r.Chance(1, 10)) e.secs.back().data += note("GNU", 3, Unhex(RandHex(r, 40)));
    if (r.Chance(1, 4)) {  // Other notes before it do not matter.
      ESec n = e.secs.back();
      n.name = ".note.ABI-tag";
      e.secs.insert(e.secs.begin(), n);
      e.secs[0].data[e.secs[0].data.size() - 1] ^= 1;
    }
  }
  if (b.ko) {
    auto data = [&](const char *n, const std::string &d) {
      ESec s;
      s.name = n;
      s.flags = SHF_ALLOC;
      s.data = d;
      e.secs.push_back(s);
    };
    b.modinfo = {{"name", "m" + std::to_string(r.Below(100))}, {"license", "GPL"}};
    if (r.Chance(1, 2)) b.modinfo["description"] = "a=b=c";
    std::string d;
    for (auto &[k, v] : b.modinfo) d += k + "=" + v + std::string(1 + r.Below(3), '\0');
    data(".modinfo", d);
    data(".gnu.linkonce.this_module", std::string(64, 'm'));
  }
  int nseg = b.ko ? 1 : 1 + r.Below(3);
  uint64_t va = b.ko ? 0 : b.pie ? r.Below(3) * 0x1000 : r.PickOf<uint64_t>({0x400000, 0x200000, 0xffffffff81000000ull});
  uint64_t off = b.ko ? 0x200 : r.PickOf<uint64_t>({0x1000, 0x1000, 0x3000});
  if (b.pie && va < off && r.Chance(1, 2)) va = off;
  for (int i = 0; i < nseg; i++) {
    if (!b.ko && r.Chance(1, 3)) {  // A data segment in between.
      ESeg g;
      g.flags = PF_R | (r.Chance(1, 2) ? PF_W : 0);
      g.offset = off; g.vaddr = va; g.filesz = g.memsz = 0x1000;
      e.segs.push_back(g);
      off += 0x1000; va += 0x1000;
    }
    uint64_t len = b.arm ? 4 * (4 + r.Below(60)) : 16 + r.Below(200), pad = b.ko ? 0 : r.PickOf<uint64_t>({0, 0x40, 0x100});
    ESec t;
    t.name = i == 0 ? ".text" : ".text." + std::to_string(i);
    t.flags = SHF_ALLOC | SHF_EXECINSTR;
    t.addr = va + pad;
    t.offset = off + pad;
    t.align = 16;
    t.data = Code(r, b.arm, t.addr, len, &b.insts);
    b.text.push_back({t.addr, t.addr + t.data.size()});
    if (b.ko) {
      if (r.Chance(1, 2)) { ESec x = t; x.name = ".init.text"; x.offset = -1; x.addr = 0x100000; e.secs.push_back(x); for (size_t o = 0; o < x.data.size(); o++) { auto it = b.insts.find(t.addr + o); if (it != b.insts.end()) b.insts[x.addr + o] = it->second; } b.text.push_back({x.addr, x.addr + x.data.size()}); }
      if (r.Chance(1, 3)) { ESec x = t; x.name = ".text"; x.flags = SHF_ALLOC; x.offset = -1; x.addr = 0; x.type = SHT_NOBITS; x.data = "x"; e.secs.push_back(x); }
      b.text_index = e.secs.size() + 1;
      b.segs.push_back({off, t.addr, t.data.size()});
    } else {
      ESeg g;
      g.offset = off; g.vaddr = va; g.filesz = g.memsz = pad + t.data.size() + r.Below(3) * 0x80;
      if (r.Chance(1, 5)) g.memsz += 0x40;
      e.segs.push_back(g);
      b.segs.push_back({off, va, g.memsz});
    }
    e.secs.push_back(t);
    off = (off + 0x1fff) & ~0xfffull;
    va = ((va + 0x1fff) & ~0xfffull) + r.PickOf<uint64_t>({0, 0, 0x1000, 0x10000});
  }
  ESym y;
  y.name = "main"; y.value = b.text[0].first; y.size = 8;
  e.syms.push_back(y);
  e.extended = r.Chance(1, 12);
  e.bits32 = !b.ko && va < 0x80000000 && r.Chance(1, 8);
  WriteFile(b.path, e.Build());
  return b;
}

struct Map {
  uint64_t start, len, pgoff;
  std::string name;
  bool operator<(const Map &o) const { return std::tie(start, len, pgoff, name) < std::tie(o.start, o.len, o.pgoff, o.name); }
};
using Maps = std::map<uint32_t, std::vector<Map>>;

std::string Base(const std::string &n) {
  size_t p = n.rfind('/');
  return p == std::string::npos ? n : n.substr(p + 1);
}
bool Matches(const std::set<std::string> &wanted, const std::string &name) {
  if (wanted == std::set<std::string>{"[kernel.kallsyms]"}) return name == "[kernel.kallsyms]" || name == "[kernel.kallsyms]_text" || name == "[kernel.kallsyms]_stext";
  for (auto &w : wanted)
    if (w[0] == '/' ? w == name : Base(w) == Base(name)) return true;
  return false;
}
// Nothing when the selection has to fail.
bool Select(const Maps &all, const std::vector<std::pair<uint32_t, Map>> &order, const std::set<std::string> &wanted, Maps *out) {
  if (wanted.empty()) return false;
  for (auto &[pid, m] : order) {
    if (m.name.empty() || !Matches(wanted, m.name)) continue;
    auto &v = (*out)[pid];
    bool dup = false;
    for (auto &o : v) {
      if (o.start == m.start && o.len == m.len && o.pgoff == m.pgoff) { dup = true; continue; }
      if (m.start + m.len > o.start && o.start + o.len > m.start) return false;
    }
    if (!dup) v.push_back(m);
  }
  return !out->empty();
}
uint64_t Translate(const Bin &b, const Maps &maps, uint32_t pid, uint64_t a) {
  auto it = maps.find(pid);
  if (it == maps.end()) return kBad;
  const Map *m = nullptr;
  for (auto &x : it->second) if (a >= x.start && a - x.start < x.len) m = &x;
  if (!m) return kBad;
  if (pid != kKernel && !b.pie) return a;
  uint64_t fo = a - m->start + (pid == kKernel ? 0 : m->pgoff), base = pid == kKernel ? b.segs[0].off : 0;
  for (auto &s : b.segs) {
    uint64_t o = s.off - base;
    if (fo >= o && fo < o + s.memsz) return fo - o + s.vaddr;
  }
  return kBad;
}

struct Profile {
  PerfData d;
  Maps all;
  std::vector<std::pair<uint32_t, Map>> order;
  std::set<std::string> id_names;  // Usable names the build id list has for the binary.
  std::vector<uint32_t> pids;
};

// Perf data of some processes, most of them mapping the binary.
Profile GenProfile(Ctx &ctx, const Bin &b, const std::string &name, bool clean) {
  Rng &r = ctx.rng;
  Profile p;
  bool kernel = !b.pie && r.Chance(1, 4);
  std::vector<std::string> names = {name, "/other/" + Base(name), "/lib/libc.so", "/x" + name, name + ".so", "//anon", "/anon/lib.so", "/anonymous", "/anon_hugepage (deleted)", "[anon:x]", Base(name)};
  std::string kname = r.PickOf<std::string>({"[kernel.kallsyms]", "[kernel.kallsyms]_text", "[kernel.kallsyms]_stext", "/boot/vmlinux"});
  auto add = [&](uint32_t pid, const Map &m) {
    p.order.push_back({pid, m});
    p.all[pid].push_back(m);
    p.d.Mmap(pid, m.start, m.len, m.pgoff, m.name);
  };
  auto bad_maps = [&] {
    if (!r.Chance(1, 6)) return;
    // Incomplete mmap records are none.
    auto *e = p.d.p.add_events();
    e->mutable_header()->set_type(1);
    auto *m = e->mutable_mmap_event();
    int k = r.Below(5);
    if (k != 0) m->set_pid(100);
    if (k != 1) m->set_start(0x1000);
    if (k != 2) m->set_len(0x100000000ull);
    if (k != 3) m->set_filename(k == 4 ? "" : name);
    m->set_pgoff(0);
  };
  if (kernel) {
    uint64_t base = b.ko ? 0xffffffffc0001000ull : b.segs[0].vaddr;
    if (b.ko) kname = "[mod]";
    add(kKernel, {base, 0x8000, r.Chance(1, 2) ? base : 0, kname});
  }
  for (int i = 0, n = 1 + r.Below(4); i < n; i++) {
    uint32_t pid = 100 + r.Below(6);
    if (std::find(p.pids.begin(), p.pids.end(), pid) != p.pids.end()) continue;
    p.pids.push_back(pid);
    // One mapping per segment, at the load bias, in most processes.
    uint64_t bias = b.pie || b.ko ? 0x555500000000ull + r.Below(16) * 0x1000 : 0;
    std::string n2 = r.Chance(3, 4) ? name : names[r.Below(names.size())];
    for (auto &s : b.segs) {
      uint64_t o = s.off & ~0xfffull;
      uint64_t len = (s.memsz + (s.off - o) + 0xfff) & ~0xfffull;
      Map m{s.vaddr - (s.off - o) + bias, len, o, n2};
      if (!clean && r.Chance(1, 10)) m.pgoff += 0x1000;
      if (r.Chance(1, 12)) m.name = names[r.Below(names.size())];
      add(pid, m);
      if (r.Chance(1, 8)) add(pid, m);  // Recorded twice.
      if (!clean && r.Chance(1, 16)) { m.start += r.PickOf<uint64_t>({0x1000, 0}); m.len += r.PickOf<uint64_t>({0x1000, 0}); m.name = names[r.Below(3)]; add(pid, m); }
      bad_maps();
    }
    if (r.Chance(1, 3)) add(pid, {0x7f0000000000ull, 0x4000, 0x1000 * r.Below(3), names[r.Below(names.size())]});
  }
  // Build ids.
  int nid = r.Below(4) + (clean ? 1 : 0);
  for (int i = 0; i < nid; i++) {
    std::string n = i == 0 && r.Chance(7, 8) ? (kernel && r.Chance(2, 3) ? "[kernel.kallsyms]" : name) : names[r.Below(names.size())];
    std::string x = r.Chance(clean && i == 0 ? 1 : 2, clean && i == 0 ? 1 : 3) ? b.id : RandHex(r, 40);
    if (x.empty()) x = RandHex(r, 40);
    if (r.Chance(1, 12)) {
      auto *q = p.d.p.add_build_ids();
      if (r.Chance(1, 2)) q->set_filename(n); else q->set_build_id_hash(Unhex(x));
      continue;
    }
    if (r.Chance(1, 20)) n = "";
    p.d.BuildId(n, x);
    if (!b.id.empty() && x == b.id && !n.empty() && n.rfind("/anon_hugepage", 0) && n.rfind("[anon:", 0)) p.id_names.insert(n);
  }
  return p;
}

std::string MapStr(const Maps &m) {
  std::string s;
  for (auto &[p, v] : m) {
    s += " pid " + std::to_string(p) + ":";
    for (auto &x : v) s += " [" + Hex(x.start) + "+" + Hex(x.len) + "@" + Hex(x.pgoff) + " " + x.name + "]";
  }
  return s;
}
std::string BinStr(const Bin &b) {
  std::string s = b.pie ? "pie" : b.ko ? "ko" : "exec";
  for (auto &g : b.segs) s += " " + Hex(g.off) + ">" + Hex(g.vaddr) + "+" + Hex(g.memsz);
  return s;
}
afdo::PerfDataProvider::BufferHandle Handle(const std::string &s) {
  return {.description = "generated", .buffer = llvm::MemoryBuffer::getMemBufferCopy(s)};
}
}  // namespace

VPROP(C18) {
  Rng &r = ctx.rng;
  // Files that are no program.
  if (r.Chance(1, 10)) {
    Elf e;
    std::string f = ctx.Tmp("odd.ko");
    int k = r.Below(5);
    ESeg g;
    g.offset = 0x1000; g.vaddr = 0x1000; g.filesz = g.memsz = 0x10;
    if (k == 0) e.type = ET_DYN;                       // No segment at all.
    if (k == 1) { g.flags = PF_R; e.segs.push_back(g); }  // None executable.
    if (k == 2) { e.type = ET_REL; f = ctx.Tmp("odd.o"); }
    if (k == 3) e.type = ET_REL;                       // Not a kernel module.
    std::string c = k == 4 ? "no elf file" : e.Build();
    WriteFile(f, c);
    auto bc = afdo::GetBinaryContent(f);
    ctx.Check(!bc.ok(), "unusable binary accepted", [&] { return std::to_string(k); });
    ctx.Count("unusable_binaries");
    unlink(f.c_str());
  }
  // Module information, well-formed or not.
  if (r.Chance(1, 3)) {
    std::string d;
    std::map<std::string, std::string> mi;
    bool fine = true;
    int n = r.Below(6);
    if (n && r.Chance(1, 15)) { d.push_back(0); fine = false; }
    for (int i = 0; i < n; i++) {
      std::string k = r.PickOf<std::string>({"name", "license", "description", "x", "parm"}), v = r.PickOf<std::string>({"m", "GPL v2", "a=b", "=", "\xff\x01"});
      int odd = r.Below(30);
      std::string e = odd == 0 ? k : odd == 1 ? "=" + v : odd == 2 ? k + "=" : odd == 3 ? "=" : k + "=" + v;
      if (odd == 2) v = "";  // as in "depends="
      if (odd <= 3 && odd != 2) fine = false; else mi.insert({k, v});
      d += e;
      if (i + 1 == n && r.Chance(1, 10)) fine = false;  // not terminated
      else d += std::string(1 + r.Below(3), '\0');
    }
    if (!n) fine = false;
    std::vector<char> exact(d.begin(), d.end());  // so that reading past the end shows
    auto got = afdo::ELFFileUtilBase::ParseModInfoSectionContent(absl::string_view(exact.data(), exact.size()));
    std::map<std::string, std::string> g;
    if (got.ok()) for (auto &[k, v] : *got) g[std::string(k)] = std::string(v);
    ctx.Check(got.ok() == fine && (!fine || g == mi), "module information", [&] { std::string t; for (char c : d) t += c ? c : '|'; return t + (got.ok() ? " accepted" : " rejected"); });
    ctx.Count(fine ? "module_information" : "bad_module_information");
  }
  Bin b = GenBin(ctx, -1, true);
  auto bc = afdo::GetBinaryContent(b.path);
  if (!ctx.Check(bc.ok(), "binary rejected", [&] { return std::string(bc.status().message()) + " " + BinStr(b); })) return;
  const afdo::BinaryContent &c = **bc;
  ctx.Check(c.build_id == b.id, "build id", [&] { return c.build_id + " instead of " + b.id; });
  ctx.Check(c.is_pie == b.pie && c.is_relocatable == b.ko && c.file_name == b.path, "kind of binary", [&] { return BinStr(b); });
  bool segs = c.segments.size() == b.segs.size();
  for (size_t i = 0; segs && i < b.segs.size(); i++) segs = c.segments[i].offset == b.segs[i].off && c.segments[i].vaddr == b.segs[i].vaddr && c.segments[i].memsz == b.segs[i].memsz;
  ctx.Check(segs, "executable segments", [&] { return BinStr(b); });
  ctx.Check(c.kernel_module.has_value() == b.ko, "kernel module", [&] { return BinStr(b); });
  if (b.ko && c.kernel_module) {
    std::map<std::string, std::string> mi;
    for (auto &[k, v] : c.kernel_module->modinfo) mi[std::string(k)] = std::string(v);
    ctx.Check(mi == b.modinfo, "module information", [&] { return std::to_string(mi.size()); });
    ctx.Check(c.kernel_module->text_section_index == b.text_index, "text section of the module", [&] { return std::to_string(c.kernel_module->text_section_index) + " instead of " + std::to_string(b.text_index); });
  }
  std::string name = r.PickOf<std::string>({"/usr/bin/prog", "/opt/prog-2", "prog", "/usr/lib/my lib.so"});
  Profile p = GenProfile(ctx, b, name, false);
  std::vector<std::string> match;
  if (r.Chance(1, 2))
    for (int i = 0, n = 1 + r.Below(3); i < n; i++)
      match.push_back(r.PickOf<std::string>({name, Base(name), "/usr/bin/" + Base(name), "some/dir/" + Base(name), "/x" + name, b.ko ? "[mod]" : "[vdso]", "libc.so", "[kernel.kallsyms]", "/boot/vmlinux", "vmlinux"}));
  std::set<std::string> wanted(match.begin(), match.end());
  if (match.empty()) wanted = p.id_names;
  Maps want;
  bool ok = Select(p.all, p.order, wanted, &want);
  std::string text = p.d.Str();
  bool broken = r.Chance(1, 20);
  auto h = Handle(broken ? "garbage" + text : text);
  std::vector<absl::string_view> mv(match.begin(), match.end());
  auto msg = [&] {
    std::string s = "wanted names:";
    for (auto &w : wanted) s += " '" + w + "'";
    return s + "; recorded:" + MapStr(p.all) + "; expected:" + (ok ? MapStr(want) : " failure");
  };
  if (broken) ok = false;
  auto got = afdo::SelectMMaps(h, mv, c);
  if (!ctx.Check(got.ok() == ok, ok ? "mappings not found" : "failure not reported", [&] { return msg() + " status " + std::string(got.status().message()); })) return;
  ctx.Count(ok ? "selections" : "rejections");
  if (!ok) return;
  Maps g;
  for (auto &[pid, s] : *got)
    for (auto &m : s) g[pid].push_back({m.load_addr, m.load_size, m.page_offset, m.file_name});
  for (auto &[pid, v] : want) std::sort(v.begin(), v.end());
  bool same = g.size() == want.size();
  for (auto &[pid, v] : want) {
    auto &w = g[pid];
    std::sort(w.begin(), w.end());
    same = same && w.size() == v.size() && !(w < v) && !(v < w);
  }
  if (!ctx.Check(same, "selected mappings", [&] { return msg() + "; got:" + MapStr(g); })) return;
  // Addresses.
  afdo::PerfDataReader rd(Handle(text), *got, &c);
  ctx.Check(rd.IsKernelMode() == (want.count(kKernel) > 0), "kernel mode", msg);
  std::vector<uint64_t> addrs = {0, 1, kBad, 0x7f0000000000ull};
  for (auto &[pid, v] : p.all)
    for (auto &m : v)
      for (uint64_t a : {m.start, m.start - 1, m.start + m.len, m.start + m.len - 1, m.start + r.Below(m.len), m.start + r.Below(0x100)}) addrs.push_back(a);
  for (auto &[pid, v] : want)
    for (auto &m : v)
      for (auto &s : b.segs)
        for (uint64_t x : {s.off, s.off + s.memsz, s.off + s.memsz - 1}) addrs.push_back(x - m.pgoff + m.start);
  std::vector<uint32_t> pids = p.pids;
  pids.push_back(kKernel);
  pids.push_back(7);
  uint64_t hash = 3, resolved = 0;
  for (uint32_t pid : pids)
    for (uint64_t a : addrs) {
      uint64_t w = Translate(b, want, pid, a), x = rd.RuntimeAddressToBinaryAddress(pid, a);
      resolved += w != kBad;
      hash = Mix(hash, w);
      if (!ctx.Check(x == w, "address translation", [&] { return "pid " + std::to_string(pid) + " address " + Hex(a) + " is " + Hex(x) + " instead of " + Hex(w) + "; " + BinStr(b) + msg(); })) return;
    }
  ctx.Count("addresses", addrs.size() * pids.size());
  ctx.Count("resolved", resolved);
  if (resolved) ctx.Nontrivial(hash);
  ctx.Sample([&] { return BinStr(b) + msg(); });
}

namespace {
using Branches = std::map<std::pair<uint64_t, uint64_t>, int64_t>;
struct Freq {
  Branches taken;
  std::map<uint64_t, int64_t> not_taken;
};
template <class M> Branches ToMap(const M &m) {
  Branches b;
  for (auto &[k, v] : m) b[{k.from, k.to}] = v;
  return b;
}
std::string Str(const Branches &b) {
  std::string s;
  for (auto &[k, v] : b) s += " " + Hex(k.first) + ">" + Hex(k.second) + ":" + std::to_string(v);
  return s;
}
std::string Str(const std::map<uint64_t, int64_t> &b) {
  std::string s;
  for (auto &[k, v] : b) s += " " + Hex(k) + ":" + std::to_string(v);
  return s;
}

// A runtime address of a process, mostly that of an instruction.
uint64_t RandAddr(Rng &r, const Bin &b, const Profile &p, const Maps &sel, uint32_t pid, bool only_starts) {
  uint32_t q = sel.count(kKernel) ? kKernel : pid;
  if (!r.Chance(1, 10) && !b.insts.empty() && sel.count(q)) {
    auto it = b.insts.lower_bound(b.text[0].first + r.Below(b.text[0].second - b.text[0].first));
    if (r.Chance(1, 4)) { it = b.insts.begin(); std::advance(it, r.Below(b.insts.size())); }
    if (it == b.insts.end()) it = b.insts.begin();
    for (auto &m : sel.at(q))
      for (auto &s : b.segs) {
        if (it->first < s.vaddr || it->first - s.vaddr >= s.memsz) continue;
        uint64_t a = q != kKernel && !b.pie ? it->first : it->first - s.vaddr + s.off - (q == kKernel ? b.segs[0].off : m.pgoff) + m.start;
        if (a >= m.start && a - m.start < m.len) return a;
      }
  }
  for (int k = 0; k < 20; k++) {
    uint64_t a = r.Mag(47) & ~3ull;
    auto it = p.all.find(q);
    if (it != p.all.end() && r.Chance(3, 4)) { auto &m = it->second[r.Below(it->second.size())]; a = m.start + (r.Below(r.Chance(1, 2) ? 0x80 : m.len) & ~3ull); }
    uint64_t x = Translate(b, sel, q, a);
    if (!only_starts || x == kBad || b.insts.count(x) || !b.InText(x)) return a;
  }
  return 0x10;
}
struct Options {
  afdo::PropellerOptions opt;
  std::vector<std::string> match;  // Empty: by build id.
};
Options GenOptions(Rng &r, const Bin &b, const std::string &name, bool by_id) {
  Options o;
  // The binary's own name is what is matched when the build id is ignored.
  o.opt.set_binary_name(r.Chance(1, 2) ? b.path : Base(name));
  if (!by_id || r.Chance(1, 5)) {
    if (r.Chance(1, 2)) { o.opt.set_profiled_binary_name(r.Chance(3, 4) ? name : Base(name)); o.match = {o.opt.profiled_binary_name()}; if (r.Chance(1, 2)) o.opt.set_ignore_build_id(r.Chance(1, 2)); }
    else { if (r.Chance(7, 8)) o.opt.set_binary_name(Base(name)); o.opt.set_ignore_build_id(true); o.match = {o.opt.binary_name()}; }
  } else if (r.Chance(1, 4)) {
    o.opt.set_ignore_build_id(false);
  }
  return o;
}
}  // namespace

VPROP(C19) {
  Rng &r = ctx.rng;
  bool spe = r.Chance(1, 3);
  Bin b = GenBin(ctx, spe ? 1 : -1, false);
  std::string name = r.PickOf<std::string>({"/usr/bin/prog", "/opt/prog-2", "/usr/lib/my lib.so"});
  Options o = GenOptions(r, b, name, !b.id.empty());
  auto bc = afdo::GetBinaryContent(b.path);
  if (!ctx.Check(bc.ok(), "binary rejected", [&] { return std::string(bc.status().message()); })) return;
  int nfiles = r.Chance(1, 12) ? 0 : 1 + r.Below(3);
  bool missing = r.Chance(1, 20);
  std::vector<std::string> files;
  Freq f;
  Branches falls;
  int parsed = 0, mmaps = 0;
  uint64_t entries = 0;
  uint64_t big = r.Chance(1, 10) ? 40 : 8;
  for (int k = 0; k < nfiles; k++) {
    Profile p = GenProfile(ctx, b, name, r.Chance(3, 4));
    Maps sel;
    std::set<std::string> wanted(o.match.begin(), o.match.end());
    if (o.match.empty()) wanted = p.id_names;
    bool ok = Select(p.all, p.order, wanted, &sel);
    bool kernel = sel.count(kKernel);
    std::vector<SpeRec> recs;
    std::vector<uint32_t> pids = p.pids;
    pids.push_back(77);
    if (pids.size() < 2) pids.push_back(78);
    for (int s = 0, ns = r.Below(big); s < ns; s++) {
      uint32_t pid = pids[r.Below(r.Chance(1, 10) ? pids.size() : p.pids.size())], q = kernel ? kKernel : pid;
      auto addr = [&](bool src) { return RandAddr(r, b, p, sel, pid, src); };
      if (spe) {
        SpeRec x;
        x.ip = addr(false); x.target = addr(false); x.context = pid; x.timestamp = r.Below(1000);
        x.retired = !r.Chance(1, 8); x.branch = !r.Chance(1, 8); x.cond = r.Chance(1, 2); x.not_taken = r.Chance(1, 3);
        x.el1 = r.Chance(1, 2); x.el2 = !x.el1;
        if (r.Chance(1, 3) && !recs.empty()) { x = recs[r.Below(recs.size())]; pid = x.context; q = kernel ? kKernel : pid; }
        recs.push_back(x);
        if (!ok || !sel.count(q) || !x.retired || !x.branch) continue;
        entries++;
        uint64_t from = Translate(b, sel, q, x.ip);
        if (x.cond && x.not_taken) f.not_taken[from]++;
        else f.taken[{from, Translate(b, sel, q, x.target)}]++;
        continue;
      }
      std::vector<std::pair<uint64_t, uint64_t>> st;  // Oldest first.
      for (int i = 0, n = r.PickOf<int>({0, 1, 2, 4, 16, 32}); i < n; i++) {
        if (!st.empty() && r.Chance(1, 6)) st.push_back(st.back());
        else st.push_back({addr(true), addr(false)});
      }
      std::vector<std::pair<uint64_t, uint64_t>> rev(st.rbegin(), st.rend());
      bool nopid = r.Chance(1, 20);
      p.d.Sample(pid, addr(false), rev);
      if (nopid) p.d.p.mutable_events()->rbegin()->mutable_sample_event()->clear_pid();
      if (!ok || (!kernel && (nopid || !sel.count(pid)))) continue;
      uint64_t last = kBad;
      for (auto &[a, t] : st) {
        uint64_t from = Translate(b, sel, q, a), to = Translate(b, sel, q, t);
        f.taken[{from, to}]++;
        entries++;
        if (last != kBad && last <= from) falls[{last, from}]++;
        last = to;
      }
    }
    while (!recs.empty()) {
      size_t n = 1 + r.Below(recs.size());
      p.d.Aux(std::vector<SpeRec>(recs.begin(), recs.begin() + n));
      recs.erase(recs.begin(), recs.begin() + n);
    }
    parsed += ok;
    mmaps += ok ? sel.size() : 0;
    files.push_back(ctx.Tmp("p" + std::to_string(k)));
    WriteFile(files.back(), p.d.Str());
    if (r.Chance(1, 15)) { files.push_back(ctx.Tmp("garbage")); WriteFile(files.back(), "garbage"); }
  }
  if (missing) { unlink(ctx.Tmp("missing").c_str()); files.insert(files.begin() + r.Below(files.size() + 1), ctx.Tmp("missing")); }
  afdo::PropellerStats stats;
  stats.profile_stats.perf_file_parsed = 0;
  auto provider = std::make_unique<afdo::GenericFilePerfDataProvider>(files);
  bool want_ok = !missing && parsed > 0;
  std::string status;
  bool ok;
  Branches taken, fall;
  std::map<uint64_t, int64_t> not_taken;
  int64_t n = 0;
  if (spe) {
    afdo::PerfBranchFrequenciesAggregator agg(std::move(provider));
    auto got = agg.AggregateBranchFrequencies(o.opt, **bc, stats);
    ok = got.ok();
    status = std::string(got.status().message());
    if (ok) {
      taken = ToMap(got->taken_branch_counters);
      for (auto &[k, v] : got->not_taken_branch_counters) not_taken[k.address] = v;
      n = got->GetNumberOfTakenBranchCounters();
    }
  } else {
    afdo::PerfLbrAggregator agg(std::move(provider));
    auto got = agg.AggregateLbrData(o.opt, **bc, stats);
    ok = got.ok();
    status = std::string(got.status().message());
    if (ok) { taken = ToMap(got->branch_counters); fall = ToMap(got->fallthrough_counters); n = got->GetNumberOfBranchCounters(); }
  }
  auto ctxmsg = [&] { return BinStr(b) + " options " + o.opt.ShortDebugString() + " files " + std::to_string(files.size()) + " status " + status; };
  if (!ctx.Check(ok == want_ok, want_ok ? "aggregation fails" : "failure not reported", ctxmsg)) return;
  if (!ok) { ctx.Count("failures"); return; }
  ctx.Check(taken == f.taken, "taken branches", [&] { return "want" + Str(f.taken) + "\n got" + Str(taken) + " " + ctxmsg(); });
  ctx.Check(not_taken == f.not_taken, "not-taken branches", [&] { return "want" + Str(f.not_taken) + "\n got" + Str(not_taken) + " " + ctxmsg(); });
  ctx.Check(fall == falls, "fall-throughs", [&] { return "want" + Str(falls) + "\n got" + Str(fall) + " " + ctxmsg(); });
  uint64_t total = 0;
  for (auto &[k, v] : f.taken) total += v;
  ctx.Check(n == static_cast<int64_t>(total) && stats.profile_stats.br_counters_accumulated == total, "number of branches", [&] { return std::to_string(n) + " instead of " + std::to_string(total); });
  ctx.Check(stats.profile_stats.perf_file_parsed == parsed, "number of parsed files", [&] { return std::to_string(stats.profile_stats.perf_file_parsed) + " instead of " + std::to_string(parsed); });
  ctx.Check(stats.profile_stats.binary_mmap_num == mmaps, "number of mappings", [&] { return std::to_string(stats.profile_stats.binary_mmap_num) + " instead of " + std::to_string(mmaps); });
  if (!spe) {
    std::map<uint64_t, int64_t> src;
    for (auto &[k, v] : f.taken) if (k.first != kBad) src[k.first] += v;
    int64_t want[3][2] = {};
    for (auto &[a, v] : src) {
      auto it = b.insts.find(a);
      Kind k = it == b.insts.end() ? kNone : it->second;
      want[k][0]++;
      want[k][1] += v;
    }
    auto &d = stats.disassembly_stats;
    auto cmp = [&](const afdo::PropellerStats::DisassemblyStats::Stat &s, Kind k, const char *what) {
      ctx.Check(s.absolute == want[k][0] && s.weighted == want[k][1], "disassembly statistics", [&] { return std::string(what) + " " + std::to_string(s.absolute) + "/" + std::to_string(s.weighted) + " instead of " + std::to_string(want[k][0]) + "/" + std::to_string(want[k][1]) + Str(src); });
    };
    cmp(d.could_not_disassemble, kNone, "no instruction");
    cmp(d.cant_affect_control_flow, kPlain, "no branch");
    cmp(d.may_affect_control_flow, kBranch, "branch");
  }
  uint64_t h = spe;
  for (auto &[k, v] : f.taken) h = Mix(Mix(Mix(h, k.first), k.second), v);
  for (auto &[k, v] : f.not_taken) h = Mix(Mix(h, k), v);
  ctx.Count(spe ? "spe_records" : "lbr_entries", entries);
  if (entries) ctx.Nontrivial(h);
  ctx.Sample([&] { return (spe ? "spe" : "lbr") + Str(f.taken) + " fall" + Str(falls); });
}

namespace {
// Ranges and branches from branch frequencies, as documented.
void Infer(const Freq &f, const std::function<bool(int64_t)> &branch, const std::function<int64_t(int64_t)> &off, int size, Branches *ranges, Branches *branches) {
  std::map<int64_t, int64_t> in;
  for (auto &[k, v] : f.taken) {
    if (k.second != kBad) in[k.second] += v;
    if (k.first != kBad && k.second != kBad) (*branches)[{off(k.first), off(k.second)}] += v;
  }
  int64_t w = 0;
  std::vector<std::pair<int64_t, int64_t>> v(in.begin(), in.end());
  for (size_t i = 0; i < v.size(); i++) {
    w += v[i].second;
    int64_t end = i + 1 < v.size() ? v[i + 1].first : v[i].first + 0x1000, start = v[i].first;
    for (int64_t a = start; w > 0 && a < end; a += size) {
      bool br = branch(a);
      if (br || a + size >= end) {
        (*ranges)[{off(start), off(a)}] += w;
        start = a + size;
        if (br) { auto it = f.not_taken.find(a); w = it == f.not_taken.end() ? 0 : it->second; }
      }
    }
  }
}
}  // namespace

VPROP(C22) {
  Rng &r = ctx.rng;
  int size = r.PickOf({4, 4, 4, 2, 1, 8});
  int64_t base = r.PickOf<int64_t>({0, 0x400000, static_cast<int64_t>(0xffffffff81000000ull), 0x1000});
  int span = r.PickOf({4, 16, 64, 200, 3000});
  auto addr = [&]() -> uint64_t { return base + size * static_cast<int64_t>(r.Below(span)); };
  Freq f;
  afdo::BranchFrequencies bf;
  auto count = [&]() -> int64_t { return r.Chance(1, 12) ? r.PickOf<int64_t>({0, 1ll << 40, 0x7fffffff, 0xffffffffll}) : 1 + r.Below(100); };
  for (int i = 0, n = r.Below(r.PickOf({4, 12, 40})); i < n; i++) f.taken[{r.Chance(1, 8) ? kBad : addr(), r.Chance(1, 8) ? kBad : addr()}] += count();
  for (int i = 0, n = r.Below(r.PickOf({4, 12, 40})); i < n; i++) f.not_taken[r.Chance(1, 12) ? kBad : addr()] += count();
  for (auto &[k, v] : f.taken) bf.taken_branch_counters[{.from = k.first, .to = k.second}] = v;
  for (auto &[k, v] : f.not_taken) bf.not_taken_branch_counters[{.address = k}] = v;
  // What is a branch: the sampled ones, and some others; unreadable code counts as one.
  int density = r.PickOf({0, 2, 5, 30});
  bool sampled = r.Chance(3, 4);
  uint64_t salt = r.Next();
  auto kind = [&](int64_t a) -> int {  // 0 no, 1 yes, 2 unreadable
    if (sampled) {
      if (f.not_taken.count(a)) return 1;
      for (auto &[k, v] : f.taken) if (static_cast<int64_t>(k.first) == a) return 1;
    }
    uint64_t h = Mix(salt, a);
    if (density && h % density == 0) return (h >> 32) % 5 == 0 ? 2 : 1;
    return 0;
  };
  std::map<int64_t, int> cache;
  auto cached = [&](int64_t a) { auto it = cache.find(a); return it != cache.end() ? it->second : cache[a] = kind(a); };
  int64_t shift = r.PickOf<int64_t>({0, -base, 0x1000 - base, 77});
  // Several addresses may share an offset.
  int fold = r.Chance(1, 6) ? 2 : 1;
  auto off = [&](int64_t a) -> int64_t { return (a - base) / (size * fold) * (size * fold) + base + shift; };
  Branches ranges, branches;
  Infer(f, [&](int64_t a) { return cached(a) != 0; }, off, size, &ranges, &branches);
  auto got = afdo::ConvertBranchFrequenciesToAutofdoRangeSample(
      bf, [&](int64_t a) -> absl::StatusOr<bool> { int k = cached(a); if (k == 2) return absl::FailedPreconditionError("unreadable"); return k == 1; }, off, size);
  if (!ctx.Check(got.ok(), "conversion fails", [] { return std::string(); })) return;
  Branches gr, gb;
  for (auto &[k, v] : got->range_counts) gr[{k.first, k.second}] = v;
  for (auto &[k, v] : got->branch_counts) gb[{k.first, k.second}] = v;
  auto msg = [&] { return "taken" + Str(f.taken) + " not taken" + Str(f.not_taken) + " size " + std::to_string(size); };
  ctx.Check(gr == ranges, "ranges", [&] { return "want" + Str(ranges) + "\n got" + Str(gr) + "\n from " + msg(); });
  ctx.Check(gb == branches, "branches", [&] { return "want" + Str(branches) + "\n got" + Str(gb) + "\n from " + msg(); });
  uint64_t h = size;
  for (auto &[k, v] : ranges) h = Mix(Mix(Mix(h, k.first), k.second), v);
  ctx.Count("ranges", ranges.size());
  if (!ranges.empty()) ctx.Nontrivial(h);
  ctx.Sample([&] { return msg() + " gives" + Str(ranges); });
}

namespace {
// Which process a thread belonged to, from the recorded events.
struct PidModel {
  std::map<int, std::vector<std::pair<uint64_t, int>>> tids;
  std::set<int> pids;
  bool conv = false, is_short = false;
  uint64_t shift = 0, mult = 0, zero = 0, cycles = 0, mask = 0;
  void Record(int pid, int tid, uint64_t ts) {
    if (pid <= 0 || tid <= 0) return;
    tids[tid].push_back({ts, pid});
    pids.insert(pid);
  }
  uint64_t Time(uint64_t c) const {
    if (is_short) c = cycles + ((c - cycles) & mask);
    unsigned __int128 t = static_cast<unsigned __int128>(c) * mult >> shift;
    return zero + static_cast<uint64_t>(t);
  }
  // -1: unknown.
  int Get(const SpeRec &x) const {
    if (!x.el1 && !x.el2) return pids.size() == 1 ? *pids.begin() : -1;
    auto it = tids.find(static_cast<int>(x.context));
    int best = static_cast<int>(x.context);
    if (it == tids.end()) return best;
    uint64_t t = Time(x.timestamp);
    for (auto &[ts, pid] : it->second) if (ts <= t) best = pid;
    return best;
  }
};
// Adds thread events in the order of time, and maybe a time conversion.
void GenThreads(Rng &r, PerfData *d, PidModel *m, const std::vector<uint32_t> &pids, const std::vector<uint32_t> &tids) {
  if (r.Chance(1, 2)) {
    auto *e = d->p.add_events();
    e->mutable_header()->set_type(79);
    auto *t = e->mutable_time_conv_event();
    m->shift = r.PickOf<uint64_t>({0, 1, 10, 25, 31});
    m->mult = r.Chance(1, 2) ? 1ull << m->shift : 1 + r.Below(1ull << std::min<uint64_t>(31, m->shift + 2));
    m->zero = r.PickOf<uint64_t>({0, 5, 100});
    t->set_time_shift(m->shift); t->set_time_mult(m->mult); t->set_time_zero(m->zero);
    if (r.Chance(1, 3)) {
      m->is_short = true;
      m->cycles = r.Below(200);
      m->mask = r.PickOf<uint64_t>({0xff, 0xffffff, ~0ull >> 8});
      t->set_cap_user_time_short(true); t->set_time_cycles(m->cycles); t->set_time_mask(m->mask);
    }
  }
  uint64_t ts = 0;
  int n = r.Below(10);
  for (int i = 0; i < n; i++) {
    ts += 1 + r.Below(60);
    uint32_t pid = r.Chance(1, 15) ? 0 : pids[r.Below(pids.size())], tid = r.Chance(1, 15) ? 0 : tids[r.Below(tids.size())];
    auto *e = d->p.add_events();
    e->set_timestamp(ts);
    switch (r.Below(6)) {
      case 0: {
        e->mutable_header()->set_type(7);
        auto *f = e->mutable_fork_event();
        f->set_pid(pid); f->set_tid(tid); f->set_fork_time_ns(ts);
        m->Record(pid, tid, ts);
        break;
      }
      case 1: {
        e->mutable_header()->set_type(9);
        auto *s = e->mutable_sample_event();
        bool no = r.Chance(1, 4);
        s->set_pid(pid); s->set_tid(tid); s->set_sample_time_ns(no ? 0 : ts);
        if (!no) m->Record(pid, tid, ts);
        break;
      }
      default: {
        quipper::PerfDataProto_SampleInfo *s;
        int k = r.Below(3);
        if (k == 0) { e->mutable_header()->set_type(3); s = e->mutable_comm_event()->mutable_sample_info(); }
        else if (k == 1) { e->mutable_header()->set_type(4); s = e->mutable_exit_event()->mutable_sample_info(); }
        else { e->mutable_header()->set_type(1); e->mutable_mmap_event()->set_pid(1); s = e->mutable_mmap_event()->mutable_sample_info(); }
        bool no = r.Chance(1, 4);
        s->set_pid(pid); s->set_tid(tid); s->set_sample_time_ns(no ? 0 : ts);
        if (!no) m->Record(pid, tid, ts);
      }
    }
  }
}
uint64_t RandTime(Rng &r, const PidModel &m) {
  // Mostly times whose conversion falls among the events.
  uint64_t t = r.Below(400);
  if (m.mult && r.Chance(5, 6)) t = ((static_cast<unsigned __int128>(t) << m.shift) + m.mult - 1) / m.mult;
  return r.Chance(1, 12) ? r.Mag(50) : t;
}
}  // namespace

VPROP(C20) {
  Rng &r = ctx.rng;
  // The process of a record.
  {
    PerfData d;
    PidModel m;
    std::vector<uint32_t> pids, tids;
    for (int i = 0, n = 1 + r.Below(3); i < n; i++) pids.push_back(1000 + i);
    for (int i = 0, n = 1 + r.Below(4); i < n; i++) tids.push_back(r.Chance(1, 3) ? pids[r.Below(pids.size())] : 2000 + i);
    GenThreads(r, &d, &m, pids, tids);
    if (d.p.events_size() == 0 || !d.p.events(0).has_time_conv_event()) m.mult = m.shift = m.zero = 0;
    afdo::SpeTidPidProvider prov(d.p.events());
    for (int i = 0; i < 12; i++) {
      SpeRec x;
      x.context = r.Chance(1, 8) ? 4242 : tids[r.Below(tids.size())];
      x.timestamp = RandTime(r, m);
      x.el1 = r.Chance(1, 2); x.el2 = r.Chance(1, 2);
      quipper::ArmSpeDecoder::Record rec;
      rec.context.el1 = x.el1; rec.context.el2 = x.el2; rec.context.id = x.context; rec.timestamp = x.timestamp;
      auto got = prov.GetPid(rec);
      int want = m.Get(x);
      if (!ctx.Check(got.ok() == (want >= 0) && (!got.ok() || *got == want), "process of a record", [&] {
            return (got.ok() ? std::to_string(*got) : std::string("error")) + " instead of " + std::to_string(want) + " for thread " + std::to_string(x.context) + " time " + std::to_string(m.Time(x.timestamp)) + " in " + d.p.ShortDebugString();
          }))
        break;
      ctx.Count("pid_lookups");
    }
  }
  // The sample reader.
  bool arm = !r.Chance(1, 20);
  Bin b = GenBin(ctx, arm, false);
  std::string name = r.PickOf<std::string>({"/usr/bin/prog", "/opt/prog-2"});
  std::string re = r.PickOf<std::string>({"prog", ".*/prog", "/usr/bin/prog$", "^/opt", "nothing"});
  // The same as a whole too.
  bool whole = r.Chance(1, 5);
  if (whole) re = ".*/prog$";
  auto re_match = [&](const std::string &n) {
    if (re == "prog") return n.find("prog") != std::string::npos;
    if (re == ".*/prog") return n.find("/prog") != std::string::npos;
    if (re == "/usr/bin/prog$") return n.size() >= 13 && n.substr(n.size() - 13) == "/usr/bin/prog";
    if (re == ".*/prog$") return n.size() >= 5 && n.substr(n.size() - 5) == "/prog";
    if (re == "^/opt") return n.rfind("/opt", 0) == 0;
    return n.find("nothing") != std::string::npos;
  };
  auto strategy = r.Chance(1, 2) ? afdo::PerfSpeDataSampleReader::BranchIdStrategy::kDisassembly : afdo::PerfSpeDataSampleReader::BranchIdStrategy::kSampling;
  bool disasm = strategy == afdo::PerfSpeDataSampleReader::BranchIdStrategy::kDisassembly;
  Branches ranges, branches;
  std::unique_ptr<afdo::PerfSpeDataSampleReader> rd;
  uint64_t records = 0;
  std::vector<std::string> files;
  for (int k = 0, n = 1 + r.Below(3); k < n; k++) {
    Profile p = GenProfile(ctx, b, name, r.Chance(7, 8));
    Maps sel;
    std::set<std::string> wanted = p.id_names;
    if (b.id.empty()) {
      wanted.clear();
      for (auto &[pid, m] : p.order) if (!m.name.empty() && re_match(m.name)) wanted.insert(m.name);
      for (auto &e : p.d.p.events()) if (e.has_mmap_event() && !e.mmap_event().filename().empty() && re_match(e.mmap_event().filename())) wanted.insert(e.mmap_event().filename());
    }
    bool ok = Select(p.all, p.order, wanted, &sel) && arm;
    bool kernel = sel.count(kKernel);
    PidModel m;
    std::vector<uint32_t> pids = p.pids, tids = {5001, 5002, p.pids[0]};
    GenThreads(r, &p.d, &m, pids, tids);
    std::vector<SpeRec> recs;
    Freq f;
    for (int s = 0, ns = r.Below(30); s < ns; s++) {
      SpeRec x;
      x.context = r.Chance(1, 2) ? tids[r.Below(tids.size())] : pids[r.Below(pids.size())];
      x.timestamp = RandTime(r, m);
      x.el1 = r.Chance(7, 8); x.el2 = r.Chance(1, 4);
      int pid = m.Get(x);
      x.ip = RandAddr(r, b, p, sel, pid, false); x.target = RandAddr(r, b, p, sel, pid, false);
      x.retired = !r.Chance(1, 8); x.branch = !r.Chance(1, 8); x.cond = r.Chance(1, 2); x.not_taken = r.Chance(1, 2);
      uint32_t q = kernel ? kKernel : pid;
      // No code is mapped outside the segments of a program without relocation.
      bool usable = true;
      if (!b.pie && !kernel && sel.count(q))
        for (uint64_t a : {x.ip, x.target}) {
          uint64_t t = Translate(b, sel, q, a);
          bool in = false;
          for (auto &g : b.segs) in = in || (t >= g.vaddr && t - g.vaddr < g.memsz);
          usable = usable && (t == kBad || in);
        }
      if (!usable) continue;
      recs.push_back(x);
      if (pid < 0 || !sel.count(q) || !x.retired || !x.branch) continue;
      uint64_t from = Translate(b, sel, q, x.ip);
      if (x.cond && x.not_taken) f.not_taken[from]++;
      else f.taken[{from, Translate(b, sel, q, x.target)}]++;
      records++;
    }
    while (!recs.empty()) {
      size_t c = 1 + r.Below(recs.size());
      p.d.Aux(std::vector<SpeRec>(recs.begin(), recs.begin() + c));
      recs.erase(recs.begin(), recs.begin() + c);
    }
    std::string file = ctx.Tmp("spe" + std::to_string(k));
    WriteFile(file, p.d.Str());
    files.push_back(file);
    whole = whole && ok;
    if (ok) {
      std::set<uint64_t> srcs;
      for (auto &[a, v] : f.taken) srcs.insert(a.first);
      for (auto &[a, v] : f.not_taken) srcs.insert(a);
      Infer(f,
            [&](int64_t a) {
              if (!disasm) return srcs.count(a) > 0;
              auto it = b.insts.find(a);
              return it == b.insts.end() || it->second != kPlain;
            },
            [&](int64_t a) -> int64_t {
              const Bin::Seg *s = nullptr;
              for (auto &g : b.segs) if (static_cast<uint64_t>(a) >= g.vaddr) s = &g;
              return s->off - (kernel ? b.segs[0].off : 0) + a - s->vaddr;
            },
            4, &ranges, &branches);
    }
    bool got;
    if (!rd) {
      rd = std::make_unique<afdo::PerfSpeDataSampleReader>(strategy, file, re, b.path);
      got = rd->ReadAndSetTotalCount();
    } else {
      got = rd->Append(file);
    }
    if (!ctx.Check(got == ok, ok ? "reading SPE data fails" : "failure not reported", [&] { return BinStr(b) + MapStr(p.all) + " regex " + re; })) return;
    if (!arm) break;
  }
  Branches gr, gb;
  for (auto &[k, v] : rd->range_count_map()) gr[{k.first, k.second}] = v;
  for (auto &[k, v] : rd->branch_count_map()) gb[{k.first, k.second}] = v;
  auto msg = [&] { return BinStr(b) + (disasm ? " disassembly" : " sampling"); };
  if (whole && arm) {
    std::string dir = ctx.Tmp("dir"), text = ctx.Tmp("text");
    mkdir(dir.c_str(), 0700);
    link(b.path.c_str(), (dir + "/prog").c_str());
    unlink(text.c_str());
    absl::SetFlag(&FLAGS_disassemble_arm_branches, disasm);
    Branches mr, mb;
    bool ok = afdo::MergeSample(files, "perf_spe", dir + "/prog", text);
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> tr, tb;
    std::map<uint64_t, uint64_t> ta;
    ok = ok && ParseSampleText(text, &tr, &ta, &tb);
    for (auto &[k, v] : tr) mr[{k.first, k.second}] = v;
    for (auto &[k, v] : tb) mb[{k.first, k.second}] = v;
    ctx.Check(ok && mr == ranges && mb == branches && ta.empty(), "merged SPE data", [&] { return "want" + Str(ranges) + "\n got" + Str(mr) + "\n want" + Str(branches) + "\n got" + Str(mb) + "\n " + msg(); });
    unlink((dir + "/prog").c_str());
    rmdir(dir.c_str());
    unlink(text.c_str());
    ctx.Count("merged");
  }
  ctx.Check(gr == ranges, "SPE ranges", [&] { return "want" + Str(ranges) + "\n got" + Str(gr) + "\n " + msg(); });
  ctx.Check(gb == branches, "SPE branches", [&] { return "want" + Str(branches) + "\n got" + Str(gb) + "\n " + msg(); });
  ctx.Check(rd->address_count_map().empty(), "SPE address counts", msg);
  uint64_t h = 5;
  for (auto &[k, v] : ranges) h = Mix(Mix(Mix(h, k.first), k.second), v);
  ctx.Count("records", records);
  ctx.Count("ranges", ranges.size());
  if (!ranges.empty()) ctx.Nontrivial(h);
  ctx.Sample([&] { return msg() + Str(ranges) + " |" + Str(branches); });
}

namespace {
class FlakyReader : public afdo::FileReader {
 public:
  FlakyReader(std::map<std::string, std::string> *files, int *fails, std::vector<std::string> *log) : files_(files), fails_(fails), log_(log) {}
  absl::StatusOr<std::unique_ptr<llvm::MemoryBuffer>> ReadFile(absl::string_view n) override {
    log_->push_back(std::string(n));
    if (*fails_ > 0) { --*fails_; return absl::InternalError("injected"); }
    return llvm::MemoryBuffer::getMemBufferCopy((*files_)[std::string(n)]);
  }

 private:
  std::map<std::string, std::string> *files_;
  int *fails_;
  std::vector<std::string> *log_;
};
}  // namespace

VPROP(C34) {
  Rng &r = ctx.rng;
  int n = r.Below(6), fails = 0;
  bool real = r.Chance(1, 3);
  std::vector<std::string> names, log, want_log;
  std::map<std::string, std::string> files;
  for (int i = 0; i < n; i++) {
    std::string f = real ? ctx.Tmp("pd" + std::to_string(r.Below(4))) : "f" + std::to_string(r.Below(4));
    if (!files.count(f)) {
      std::string c;
      for (int k = 0, m = r.PickOf({0, 1, 100, 4096, 20000}); k < m; k++) c += static_cast<char>(r.Next());
      files[f] = c;
      if (real) WriteFile(f, c);
    }
    names.push_back(f);
  }
  std::unique_ptr<afdo::FilePerfDataProvider> p;
  if (real) p = std::make_unique<afdo::GenericFilePerfDataProvider>(names);
  else p = std::make_unique<afdo::FilePerfDataProvider>(std::make_unique<FlakyReader>(&files, &fails, &log), names);
  int at = 0, steps = 2 + r.Below(10);
  uint64_t h = n;
  auto check = [&](const afdo::PerfDataProvider::BufferHandle &b, int i) {
    std::string d = "[" + std::to_string(i + 1) + "/" + std::to_string(n) + "] " + names[i];
    ctx.Check(b.description == d, "description", [&] { return b.description + " instead of " + d; });
    ctx.Check(b.buffer && b.buffer->getBuffer().str() == files[names[i]], "file contents", [&] { return names[i]; });
  };
  for (int s = 0; s < steps; s++) {
    if (r.Chance(1, 5)) {
      afdo::FilePerfDataProvider q = std::move(*p);
      p = std::make_unique<afdo::FilePerfDataProvider>(std::move(q));
    }
    // A failed read leaves the file to be read again.
    int bad = -1;
    if (!real && r.Chance(1, 4)) fails = 1;
    if (real && at < n && r.Chance(1, 5)) { bad = at; unlink(names[at].c_str()); }
    bool will_fail = at < n && (fails > 0 || bad >= 0);
    if (r.Chance(3, 4)) {
      auto got = p->GetNext();
      h = Mix(h, 1 + will_fail);
      if (!ctx.Check(got.ok() != will_fail, "result of a read", [&] { return std::string(got.status().message()); })) return;
      if (at < n) want_log.push_back(names[at]);
      if (got.ok()) {
        if (!ctx.Check(got->has_value() == (at < n), "number of files", [&] { return std::to_string(at) + " of " + std::to_string(n); })) return;
        if (got->has_value()) check(**got, at++);
      }
    } else {
      auto got = p->GetAllAvailableOrNext();
      h = Mix(h, 3 + will_fail);
      if (!ctx.Check(got.ok() != will_fail, "result of reading all", [&] { return std::string(got.status().message()); })) return;
      if (got.ok()) {
        if (!ctx.Check(static_cast<int>(got->size()) == n - at, "number of all files", [&] { return std::to_string(got->size()) + " of " + std::to_string(n - at); })) return;
        for (auto &b : *got) { want_log.push_back(names[at]); check(b, at++); }
      } else {
        want_log.push_back(names[at]);
      }
    }
    if (bad >= 0) WriteFile(names[bad], files[names[bad]]);
    fails = 0;
  }
  if (!real) ctx.Check(log == want_log, "files read", [&] { return std::to_string(log.size()) + " reads instead of " + std::to_string(want_log.size()); });
  ctx.Count("steps", steps);
  if (n) ctx.Nontrivial(h);
  ctx.Sample([&] { return std::to_string(n) + " files, " + std::to_string(steps) + " calls"; });
}
