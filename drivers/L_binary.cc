// link: core prop
// Binaries as the tools see them through LLVM: compile units of addresses (C36), instructions (C39).
#include <sys/stat.h>
#include "addr2cu.h"
#include "llvm/Object/ELFObjectFile.h"
#include "llvm/Object/ObjectFile.h"
#include "llvm/Support/MemoryBuffer.h"
#include "mini_disassembler.h"
#include "vcc.h"
#include "velf.h"
#include "vperf.h"
#include "vreal.h"
#include "vtool.h"
namespace afdo = devtools_crosstool_autofdo;
using namespace vh;

namespace {
struct Obj {
  std::unique_ptr<llvm::MemoryBuffer> buf;
  std::unique_ptr<llvm::object::ObjectFile> obj;
};
bool OpenObj(const std::string &path, Obj *o) {
  auto b = llvm::MemoryBuffer::getFile(path);
  if (!b) return false;
  o->buf = std::move(*b);
  auto e = llvm::object::ObjectFile::createELFObjectFile(o->buf->getMemBufferRef());
  if (!e) { llvm::consumeError(e.takeError()); return false; }
  o->obj = std::move(*e);
  return true;
}
std::string Join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += " " + x; return s; }
std::string Tail(const std::string &s, size_t n = 700) { return s.size() > n ? s.substr(s.size() - n) : s; }
// Names of the functions a file defines.
std::set<std::string> Defined(const std::string &file, const std::string &tmp) {
  std::set<std::string> s;
  if (Sh("nm --defined-only " + file + " > " + tmp + " 2>/dev/null") != 0) return s;
  std::ifstream f(tmp);
  std::string l;
  while (std::getline(f, l)) {
    if (l.size() < 20 || !strchr("TtWw", l[17])) continue;
    s.insert(l.substr(19));
  }
  return s;
}
}  // namespace

// C36: functions are reported with the source file of the compile unit they come from.
VPROP(C36) {
  Rng &r = ctx.rng;
  std::string dir = ctx.Tmp("real");
  Sh("rm -rf " + dir);
  bool c = r.Chance(1, 3), gcc = r.Chance(1, 4);
  ProgGen gen(r);
  auto sources = gen.Write(dir, c);
  std::string cc = gcc ? (c ? "gcc" : "g++") : (c ? "clang" : "clang++");
  std::string flags = r.PickOf<std::string>({"-O0", "-O1", "-O2", "-O3"});
  int debug = r.Chance(1, 8) ? 0 : r.Chance(1, 2) ? 1 : 2;  // none, in the binary, split
  std::string dw = r.PickOf<std::string>({"4", "5"});
  if (debug) flags += " -gdwarf-" + dw + (debug == 2 ? " -gsplit-dwarf" : "");
  if (debug == 1 && r.Chance(1, 4)) flags += " -gz";
  if (r.Chance(1, 3)) flags += " -ffunction-sections";
  bool labels = !gcc;
  if (labels) flags += " -fbasic-block-sections=labels";
  // Away from 0, where the ranges of dropped functions are.
  std::string pie = r.PickOf<std::string>({"", " -no-pie -fno-pie", " -fPIE -pie"}), base = " -Wl,-Ttext-segment=0x400000";
  std::string cmd = "cd " + dir + " && ", link = " && " + cc + pie;
  std::vector<std::string> objs;
  // Some of the files may be compiled without debug information.
  std::vector<bool> bare;
  for (size_t i = 0; i < sources.size(); i++) {
    std::string o = "o" + std::to_string(i) + ".o", f = flags;
    bare.push_back(debug == 1 && i && r.Chance(1, 6));
    if (bare.back()) f += " -g0";
    cmd += (i ? " && " : "") + cc + " -w " + f + pie + " -I. -c " + sources[i] + " -o " + o;
    objs.push_back(o);
  }
  for (auto &o : objs) link += " " + o;
  std::string bin = dir + "/" + r.PickOf<std::string>({"prog", "a.out"});
  auto done = [&] { if (!getenv("VERIF_DEBUG")) Sh("rm -rf " + dir); };
  if (Sh("timeout 40 sh -c '" + cmd + link + base + " -Wl,--build-id=sha1 -o " + bin + "' 2>" + dir + "/err") != 0) { ctx.Count("not_compiled"); done(); return; }
  bool dwp = debug == 2 && r.Chance(2, 3);
  if (dwp && Sh("cd " + dir + " && timeout 8 llvm-dwp -e " + bin + " -o " + bin + ".dwp 2>err") != 0) { ctx.Count("no_dwp"); done(); return; }
  RElf e;
  if (!ParseElf(bin, &e)) { done(); return; }
  std::string about = cc + " " + flags + pie + (dwp ? " dwp" : debug == 2 ? " dwo" : "");
  // Where every function comes from.
  std::vector<std::set<std::string>> def;
  for (auto &o : objs) def.push_back(Defined(dir + "/" + o, ctx.Tmp("nm")));
  std::map<std::string, int> times;
  for (auto &s : e.syms) if (s.type == STT_FUNC) times[s.name]++;
  struct F { std::string name; std::set<std::string> units; bool bare; uint64_t addr, size; };  // units: with debug information
  std::vector<F> fns;
  std::map<uint64_t, std::string> at;
  for (auto &s : e.syms) {
    if (s.type != STT_FUNC || !s.size || times[s.name] > 1) continue;
    // The linker lets the debug information of all units speak of the copy it keeps.
    F f{s.name, {}, false, s.addr, s.size};
    for (size_t i = 0; i < def.size(); i++)
      if (def[i].count(s.name)) { if (bare[i]) f.bare = true; else f.units.insert(sources[i]); }
    if (f.bare || !f.units.empty()) fns.push_back(f);
  }
  bool some = false;
  for (auto &f : fns) some |= !f.units.empty();
  Obj o;
  if (!some || !OpenObj(bin, &o)) { done(); return; }
  // Without the package, LLVM finds the objects of DWARF 4 (it is refused for DWARF 5).
  bool lost = debug == 2 && !dwp && r.Chance(2, 3);
  if (lost) Sh("rm -f " + dir + "/*.dwo");
  bool usable = debug == 1 || dwp || (debug == 2 && dw == "4" && !lost);
  auto dc = afdo::CreateDWARFContext(*o.obj, dwp ? bin + ".dwp" : "");
  ctx.Check(dc.ok() == usable, usable ? "debug information refused" : "missing debug information accepted", [&] { return about + ": " + std::string(dc.status().message()); });
  if (dc.ok() && usable) {
    afdo::Addr2Cu a2c(**dc);
    for (auto &f : fns) {
      for (int k = 0; k < 4; k++) {
        uint64_t a = k == 0 ? f.addr : k == 1 ? f.addr + f.size - 1 : f.addr + r.Below(f.size);
        auto n = a2c.GetCompileUnitFileNameForCodeAddress(a);
        ctx.Check(n.ok() ? f.units.count(std::string(*n)) > 0 : f.bare, n.ok() ? "compile unit of an address" : "no compile unit for an address", [&] { return (n.ok() ? std::string(*n) : std::string(n.status().message())) + " for " + f.name + "+" + std::to_string(a - f.addr) + " of " + (f.units.empty() ? "none" : *f.units.begin()) + "; " + about; });
        ctx.Count(f.units.size() > 1 ? "addresses_of_shared_functions" : f.bare ? "addresses_without_unit" : "addresses_of_one_unit");
      }
    }
    for (int k = 0; k < 8; k++) {
      uint64_t a = (1ull << 40) + r.Below(1ull << 40);
      auto n = a2c.GetCompileUnitFileNameForCodeAddress(a);
      ctx.Check(!n.ok(), "compile unit of no code", [&] { return std::string(*n) + " for " + Hex(a) + "; " + about; });
    }
    uint64_t h = 0;
    for (auto &f : fns) h = Mix(h, HashStr(f.name + (f.units.empty() ? "" : *f.units.begin())));
    ctx.Nontrivial(h);
    ctx.Sample([&] { std::string s = about; for (auto &f : fns) s += " " + f.name + "@" + (f.units.empty() ? "" : *f.units.begin()); return s; });
  }
  // Propeller names the modules.
  if (labels) {
    std::string id = e.build_id;
    PerfData d;
    std::string name = "/usr/bin/prog";
    d.BuildId(name, id);
    uint64_t page_off = e.off & ~0xfffull, len = ((e.off & 0xfff) + e.memsz + 0xfff) & ~0xfffull;
    uint64_t start = e.pie ? 0x555555554000ull + (r.Below(256) << 16) : e.vaddr & ~0xfffull, bias = start - (e.vaddr & ~0xfffull);
    d.Mmap(100, start, len, page_off, name);
    std::set<std::string> called;
    for (int k = 0, n = 1 + r.Below(12); k < n; k++) {
      const F &f = r.Pick(fns), &g = r.Pick(fns);
      if (&f == &g) continue;
      // Padding within a function belongs to no block.
      uint64_t from = f.addr + (r.Chance(1, 3) ? r.Below(f.size) : 0);
      d.Sample(100, g.addr + bias, {{from + bias, g.addr + bias}});
      if (from == f.addr) { called.insert(f.name); called.insert(g.name); }
    }
    std::string perf = ctx.Tmp("perf"), ccf = ctx.Tmp("cc"), ldf = ctx.Tmp("ld"), err;
    WriteFile(perf, d.Str());
    unlink(ccf.c_str());
    bool modules = r.Chance(3, 4), v1 = r.Chance(1, 2);
    std::vector<std::string> args = {"--format=propeller", "--binary=" + bin, "--profile=" + perf, "--out=" + ccf, "--propeller_symorder=" + ldf};
    if (modules) args.push_back("--propeller_output_module_name");
    args.push_back(std::string("--propeller_cluster_encoding_version=") + (v1 ? "2" : "1"));
    r.Shuffle(args);
    int st = RunTool(ctx, Tool("L_tool_create_llvm_prof"), args, &err);
    ctx.Check(!Sanitizer(err), "undefined behaviour in a tool", [&] { return Join(args) + ": " + err.substr(0, 3000); });
    bool want_ok = !called.empty() && (usable || !modules);
    if (called.empty()) {
    } else if (ctx.Check((st == 0) == want_ok, want_ok ? "Propeller fails" : "module names without debug information", [&] { return about + Join(args) + ": " + Tail(err, 1500); }) && st == 0) {
      std::vector<CcFunc> fs;
      std::string text = ReadFile(ccf), bad = ParseCc(text, v1, &fs);
      auto show = [&] { return bad + " " + about + Join(args) + "\n" + text.substr(0, 2000); };
      if (ctx.Check(bad.empty(), "cluster file", show)) {
        std::set<std::string> seen;
        for (auto &cf : fs)
          for (auto &f : fns)
            if (std::find(cf.names.begin(), cf.names.end(), f.name) != cf.names.end()) {
              seen.insert(f.name);
              ctx.Check(cf.has_module ? modules && f.units.count(cf.module) > 0 : !modules || f.bare, "module of a function", [&] { return f.name + " of " + (f.units.empty() ? "none" : *f.units.begin()) + " has " + (cf.has_module ? cf.module : "none") + show(); });
              if (cf.has_module) ctx.Count("modules_named");
            }
        for (auto &n : called) ctx.Check(seen.count(n), "executed function missing", [&] { return n + show(); });
        ctx.Count("propeller_runs");
      }
    } else if (st != 0) ctx.Count("propeller_refused");
  }
  done();
}

namespace {
struct Insn {
  std::string bytes, prefix;  // prefix of LLVM's name; empty: any
  int flow;                   // 1: may affect control flow, 0: not, -1: no instruction
};
Insn X86(Rng &r) {
  auto b = [&](std::initializer_list<int> v, int imm = 0) {
    std::string s;
    for (int x : v) s += static_cast<char>(x);
    for (int i = 0; i < imm; i++) s += static_cast<char>(r.Below(256));
    return s;
  };
  int reg = r.Below(8), cc = r.Below(16);
  switch (r.Below(43)) {
    case 0: return {b({0xe8}, 4), "CALL64", 1};
    case 1: return {b({0xff, 0xd0 + reg}), "CALL64", 1};
    case 2: return {b({0xff, 0x15}, 4), "CALL64", 1};
    case 3: return {b({0xeb}, 1), "JMP", 1};
    case 4: return {b({0xe9}, 4), "JMP", 1};
    case 5: return {b({0xff, 0xe0 + reg}), "JMP64", 1};
    case 6: return {b({0xff, 0x25}, 4), "JMP64", 1};
    case 7: case 8: return {b({0x70 + cc}, 1), "JCC", 1};
    case 9: case 10: return {b({0x0f, 0x80 + cc}, 4), "JCC", 1};
    case 11: return {b({0xc3}), "RET", 1};
    case 12: return {b({0xc2}, 2), "RET", 1};
    case 13: return {b({0xe0 + static_cast<int>(r.Below(3))}, 1), "LOOP", 1};
    case 14: return {b({0xe3}, 1), "JRCXZ", 1};
    case 15: return {b({0x41, 0xff, 0xd0 + reg}), "CALL64", 1};
    case 16: return {b({0x41, 0xff, 0xe0 + reg}), "JMP64", 1};
    case 17: return {b({0xff, 0x14, 0xc5}, 4), "CALL64", 1};
    case 18: return {b({0x90}), "NOOP", 0};
    case 19: return {b({0x50 + reg}), "PUSH64", 0};
    case 20: return {b({0x58 + reg}), "POP64", 0};
    case 21: return {b({0x48, 0x89, 0xe5}), "MOV64", 0};
    case 22: return {b({0x48, 0x8b, 0x05}, 4), "MOV64", 0};
    case 23: return {b({0x0f, 0x1f, 0x40, 0x00}), "NOOP", 0};
    case 24: return {b({0x48, 0x83, 0xc0 + reg}, 1), "ADD64", 0};
    case 25: return {b({0x48, 0x0f, 0x40 + cc, 0xc1}), "CMOV64", 0};
    case 26: return {b({0x0f, 0x90 + cc, 0xc0}), "SETCC", 0};
    case 27: return {b({0xf3, 0x0f, 0x10, 0x05}, 4), "MOVSS", 0};
    case 28: return {b({0x48, 0x8d, 0x05}, 4), "LEA64", 0};
    case 29: return {b({0x85, 0xc0}), "TEST32", 0};
    case 30: return {b({0x48, 0x0f, 0xaf, 0xc1}), "IMUL64", 0};
    case 31: return {b({0xb8 + reg}, 4), "MOV32", 0};
    case 32: return {b({0x48, 0xb8 + reg}, 8), "MOV64", 0};
    case 33: return {b({0xc5, 0xf4, 0x58, 0xc2}), "VADDPS", 0};
    case 34: return {b({0xf3, 0x0f, 0x1e, 0xfa}), "ENDBR64", 0};
    case 35: return {b({0x0f, 0x18, 0x08}), "PREFETCHT0", 0};
    case 36: return {b({0x48, 0xc7, 0x05}, 8), "MOV64", 0};
    case 37: return {b({0xc7, 0x84, 0x24}, 8), "MOV32", 0};
    case 38: return {b({0x06}), "", -1};
    case 39: return {b({0x64, 0x67, 0x48, 0xc7, 0x84, 0xc8}, 8), "MOV64", 0};  // 14 bytes
    case 40: return {b({0x64, 0x67, 0xf0, 0x48, 0x81, 0x84, 0xc8}, 8), "ADD64", 0};  // 15 bytes
    case 41: return {b({0x64, 0x67, 0xff, 0x94, 0xc8}, 4), "CALL64", 1};
    default: return {b({0x48, 0x81, 0xec}, 4), "SUB64", 0};
  }
}
Insn Arm(Rng &r) {
  auto w = [&](uint32_t op, std::initializer_list<std::pair<int, int>> fields) {
    for (auto [shift, bits] : fields) op |= static_cast<uint32_t>(r.Below(1ull << bits)) << shift;
    std::string s(4, 0);
    memcpy(&s[0], &op, 4);
    return s;
  };
  switch (r.Below(28)) {
    case 0: return {w(0x14000000, {{0, 26}}), "B", 1};
    case 1: return {w(0x94000000, {{0, 26}}), "BL", 1};
    case 2: return {w(0x54000000, {{5, 19}, {0, 3}}), "Bcc", 1};
    case 3: return {w(0x34000000, {{5, 19}, {0, 5}}), "CBZW", 1};
    case 4: return {w(0xb4000000, {{5, 19}, {0, 5}}), "CBZX", 1};
    case 5: return {w(0x35000000, {{5, 19}, {0, 5}}), "CBNZW", 1};
    case 6: return {w(0x36000000, {{5, 19}, {0, 5}}), "TBZW", 1};
    case 7: return {w(0xb7000000, {{5, 19}, {0, 5}}), "TBNZX", 1};
    case 8: return {w(0xd61f0000, {{5, 5}}), "BR", 1};
    case 9: return {w(0xd63f0000, {{5, 5}}), "BLR", 1};
    case 10: return {w(0xd65f0000, {{5, 5}}), "RET", 1};
    case 11: return {w(0xd503201f, {}), "", 0};
    case 12: return {w(0x91000000, {{10, 12}, {5, 5}, {0, 5}}), "ADDXri", 0};
    case 13: return {w(0xf9400000, {{10, 12}, {5, 5}, {0, 5}}), "LDRX", 0};
    case 14: return {w(0xf9000000, {{10, 12}, {5, 5}, {0, 5}}), "STRX", 0};
    case 15: return {w(0xd2800000, {{5, 16}, {0, 5}}), "MOVZX", 0};
    case 16: return {w(0xeb000000, {{16, 5}, {5, 5}, {0, 5}}), "SUBS", 0};
    case 17: return {w(0x9a800000, {{16, 5}, {12, 4}, {5, 5}, {0, 5}}), "CSELX", 0};
    case 18: return {w(0x90000000, {{5, 19}, {0, 5}}), "ADRP", 0};
    case 19: return {w(0x10000000, {{5, 19}, {0, 5}}), "ADR", 0};
    case 20: return {w(0xa9000000, {{15, 7}, {10, 5}, {5, 5}, {0, 5}}), "STPX", 0};
    case 21: return {w(0x1e602800, {{16, 5}, {5, 5}, {0, 5}}), "FADDD", 0};
    case 22: return {w(0xd5033bbf, {}), "DMB", 0};
    case 23: return {w(0x9b007c00, {{16, 5}, {5, 5}, {0, 5}}), "MADDX", 0};
    case 24: return {w(0x4e208400, {{16, 5}, {5, 5}, {0, 5}}), "ADDv16i8", 0};
    case 25: return {w(0xffffffff, {}), "", -1};
    case 26: return {w(0x2a0003e0, {{16, 5}, {0, 5}}), "ORRW", 0};
    default: return {w(0xf8408400, {{5, 5}, {0, 5}}), "", 0};
  }
}
}  // namespace

// C39: instructions are found at their addresses and told apart by whether they may branch.
VPROP(C39) {
  Rng &r = ctx.rng;
  bool arm = r.Chance(1, 2);
  Elf e;
  e.machine = arm ? EM_AARCH64 : EM_X86_64;
  e.type = r.PickOf<int>({ET_EXEC, ET_DYN});
  struct At { uint64_t addr; Insn in; };
  std::vector<At> at;
  std::vector<uint64_t> none;  // addresses without an instruction
  uint64_t addr = 0x1000 + (r.Below(1 << 20) << 4);
  int n = 1 + r.Below(4);
  std::vector<ESec> secs;
  uint64_t h = arm;
  bool after = false;
  for (int i = 0; i < n; i++) {
    ESec s;
    s.name = i ? ".text." + std::to_string(i) : ".text";
    s.flags = SHF_ALLOC | SHF_EXECINSTR;
    s.align = r.PickOf<int>({1, 4, 16});
    addr = after ? (addr + 3) & (arm ? ~3ull : ~0ull) : (addr + 15) & ~15ull;
    s.addr = addr;
    for (int k = 0, m = r.Below(30); k < m; k++) {
      Insn in = arm ? Arm(r) : X86(r);
      at.push_back({addr + s.data.size(), in});
      s.data += in.bytes;
      h = Mix(h, HashStr(in.bytes));
    }
    // Cut off in the middle.
    if (r.Chance(1, 3)) {
      Insn in = arm ? Arm(r) : X86(r);
      if (in.flow >= 0 && in.bytes.size() > 1) {
        // A prefix of an instruction that is none itself.
        if (!arm) in.bytes = std::string("\xe8\x01\x02\x03\x04", 5);
        none.push_back(addr + s.data.size());
        s.data += in.bytes.substr(0, 1 + r.Below(in.bytes.size() - 1));
      }
    }
    addr += s.data.size();
    none.push_back(addr);  // behind the section
    uint64_t gap = 16 + r.Below(64);
    bool close = r.Chance(1, 2);  // the next one follows at once
    if (!close && r.Chance(1, 4)) {  // data, or text without contents
      ESec d;
      d.name = ".d" + std::to_string(i);
      d.addr = addr + 16;
      d.data = std::string(32, '\xc3');
      d.flags = SHF_ALLOC;
      if (r.Chance(1, 2)) { d.flags |= SHF_EXECINSTR; d.type = SHT_NOBITS; }
      none.push_back(d.addr + (r.Below(8) << 2));
      secs.push_back(d);
      gap += 64;
    }
    addr += close ? 0 : gap;
    after = close;
    secs.push_back(s);
  }
  none.push_back(0);
  none.push_back(~0ull - 3);
  // A section right behind another.
  std::vector<uint64_t> keep;
  for (uint64_t a : none) {
    bool in = false;
    for (auto &s : secs) if ((s.flags & SHF_EXECINSTR) && s.type != SHT_NOBITS && a >= s.addr && a < s.addr + s.data.size() && std::none_of(at.begin(), at.end(), [&](const At &x) { return x.addr == a; })) in = true;
    for (auto &x : at) if (x.addr == a) in = false;
    bool exact = std::any_of(at.begin(), at.end(), [&](const At &x) { return x.addr == a; });
    (void)in;
    if (!exact) keep.push_back(a);
  }
  none = keep;
  r.Shuffle(secs);
  e.secs = secs;
  if (r.Chance(1, 2)) e.syms.push_back({"f", at.empty() ? 0x1000 : at[0].addr, 4, STT_FUNC, STB_GLOBAL, ".text"});
  std::string path = ctx.Tmp("elf");
  WriteFile(path, e.Build());
  Obj o;
  if (!OpenObj(path, &o)) { ctx.Fail("harness", "unreadable ELF"); return; }
  auto d = afdo::MiniDisassembler::Create(o.obj.get());
  if (ctx.Check(d.ok(), "no disassembler", [&] { return std::string(d.status().message()); })) {
    auto hex = [](const std::string &s) { std::string x; char b[4]; for (unsigned char ch : s) { snprintf(b, sizeof b, "%02x ", ch); x += b; } return x; };
    std::vector<At> order = at;
    if (r.Chance(1, 2)) r.Shuffle(order);
    for (auto &x : order) {
      auto i = (*d)->DisassembleOne(x.addr);
      auto m = (*d)->MayAffectControlFlow(x.addr);
      auto show = [&] { return hex(x.in.bytes) + "at " + Hex(x.addr) + ": " + (i.ok() ? std::string((*d)->GetInstructionName(*i)) : std::string(i.status().message())); };
      ctx.Check(i.ok() == (x.in.flow >= 0) && m.ok() == i.ok(), x.in.flow >= 0 ? "instruction not found" : "instruction where there is none", show);
      if (!i.ok() || !m.ok() || x.in.flow < 0) { ctx.Count("no_instruction"); continue; }
      ctx.Check(*m == (x.in.flow == 1) && (*d)->MayAffectControlFlow(*i) == *m, x.in.flow ? "branch not recognised" : "no branch, but taken for one", show);
      ctx.Check((*d)->GetInstructionName(*i).starts_with(x.in.prefix), "name of an instruction", [&] { return "want " + x.in.prefix + ": " + show(); });
      ctx.Count(x.in.flow ? "branches" : "others");
    }
    for (uint64_t a : none) {
      auto i = (*d)->DisassembleOne(a);
      auto m = (*d)->MayAffectControlFlow(a);
      ctx.Check(!i.ok() && !m.ok(), "instruction where there is none", [&] { return Hex(a) + ": " + std::string((*d)->GetInstructionName(*i)); });
      ctx.Count("no_instruction");
    }
    if (!at.empty()) ctx.Nontrivial(h);
    ctx.Sample([&] { std::string s = arm ? "aarch64" : "x86-64"; for (auto &x : at) s += " " + Hex(x.addr) + ":" + hex(x.in.bytes); return s.substr(0, 1500); });
  }
  // Machines nobody knows are refused.
  if (r.Chance(1, 10)) {
    e.machine = r.PickOf<int>({0x7777, 0, 0xfeed, EM_VAX, EM_68HC08});
    WriteFile(path, e.Build());
    Obj o2;
    if (OpenObj(path, &o2)) {
      auto d2 = afdo::MiniDisassembler::Create(o2.obj.get());
      ctx.Check(!d2.ok(), "disassembler for an unknown machine", [&] { return std::to_string(e.machine); });
      ctx.Count("unknown_machines");
    }
  }
  unlink(path.c_str());
}
