// Reading truncated and damaged binaries (C17); shared by the two configurations.
#include <elf.h>
#include <signal.h>
#include "addr2line.h"
#include "symbol_map.h"
#include "symbolize/elf_reader.h"
#include "vcommon.h"
#include "velf.h"
#include "vtool.h"
namespace afdo = devtools_crosstool_autofdo;
using namespace vh;

namespace {
struct Sink : afdo::ElfReader::SymbolSink {
  std::string out;
  void AddSymbol(const char *name, uint64_t a, uint64_t n, int b, int t, int s) override {
    out += "sym " + std::string(name) + " " + Hex(a) + " " + Hex(n) + " " + std::to_string(b) + std::to_string(t) + " " + std::to_string(s) + "\n";
  }
};
// Everything the reader says about the file.
std::string ReadAll(const std::string &path, const std::vector<std::string> &names) {
  afdo::ElfReader r(path);
  std::string o;
  o += "native " + std::to_string(r.IsNativeElfFile()) + std::to_string(r.IsElf32File()) + std::to_string(r.IsElf64File()) + "\n";
  o += "id " + r.GetBuildId() + "\n";
  o += "dso " + std::to_string(r.IsDynamicSharedObject()) + " vaddr " + Hex(r.VaddrOfFirstLoadSegment()) + "\n";
  for (auto &g : r.GetSegmentInfo()) o += "seg " + std::to_string(g.type) + " " + std::to_string(g.flags) + " " + Hex(g.offset) + " " + Hex(g.vaddr) + " " + Hex(g.filesz) + " " + Hex(g.memsz) + "\n";
  Sink s;
  r.VisitSymbols(&s);
  o += s.out;
  for (auto &n : names) {
    size_t z = 0;
    afdo::ElfReader::SectionInfo info;
    const char *p = r.GetSectionByName(n, &z);
    if (!p) { o += "sec " + n + " none\n"; continue; }
    o += "sec " + n + " " + std::to_string(z) + " " + Hex(HashStr(std::string_view(p, z))) + "\n";
    if (r.GetSectionInfoByName(n, &info)) o += "info " + Hex(info.addr) + " " + Hex(info.offset) + " " + Hex(info.size) + "\n";
  }
  int i = r.GetSectionIndexByType(SHT_NOTE, 0);
  if (i >= 0) { const char *n = r.GetSectionName(i); size_t z = 0; r.GetSectionByIndex(i, &z); o += "note " + std::string(n ? n : "?") + " " + std::to_string(z) + "\n"; }
  o += "stripped " + std::to_string(afdo::ElfReader::IsNonStrippedELFBinary(path)) + std::to_string(afdo::ElfReader::IsNonDebugStrippedELFBinary(path)) + "\n";
  return o;
}
std::multiset<std::string> Lines(const std::string &s, const std::string &prefix) {
  std::multiset<std::string> r;
  std::istringstream in(s);
  std::string l;
  while (std::getline(in, l)) if (l.compare(0, prefix.size(), prefix) == 0) r.insert(l);
  return r;
}
template <class T> void PokeInt(std::string &b, size_t at, T v) { if (at + sizeof v <= b.size()) memcpy(&b[at], &v, sizeof v); }
template <class T> T PeekInt(const std::string &b, size_t at) { T v = 0; if (at + sizeof v <= b.size()) memcpy(&v, &b[at], sizeof v); return v; }

// Fields of headers in files of either class.
#define FIELD_AT(T, f) (m.b32 ? offsetof(Elf32_##T, f) : offsetof(Elf64_##T, f))
#define FIELD(T, f) FIELD_AT(T, f), static_cast<int>(m.b32 ? sizeof(Elf32_##T::f) : sizeof(Elf64_##T::f))

struct Made {
  bool b32 = false;
  std::string bytes, id;
  uint64_t Word(const std::string &b, size_t at) const { return b32 ? PeekInt<uint32_t>(b, at) : PeekInt<uint64_t>(b, at); }
  size_t SymSize() const { return b32 ? sizeof(Elf32_Sym) : sizeof(Elf64_Sym); }
  std::vector<std::string> names;
  size_t shoff = 0, shnum = 0;
  // Where section i's header is.
  size_t Shdr(size_t i) const { return shoff + i * (b32 ? sizeof(Elf32_Shdr) : sizeof(Elf64_Shdr)); }
  size_t Find(const std::string &n) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return i; return 0; }
  std::vector<size_t> name_at;  // unused
};
Made Make(Rng &r) {
  Elf e;
  Made m;
  m.b32 = e.bits32 = r.Chance(1, 4);
  if (m.b32) e.machine = r.PickOf<uint16_t>({EM_386, EM_ARM});
  e.extended = r.Chance(1, 8);
  e.type = r.Chance(1, 3) ? ET_DYN : ET_EXEC;
  uint64_t base = e.type == ET_DYN ? 0 : 0x400000;
  std::vector<std::string> pool = {"main", "_ZN3foo3barEv", "a", "ab", "abc", "abcd", "memcpy@plt", "x@plt", "f.cold", "g.__part.1", "__llvm_fs_discriminator__", "_Z4funci.llvm.123", "data_obj"};
  int n = r.In(0, 12);
  uint64_t at = base + 0x1000;
  std::set<std::string> used;
  for (int i = 0; i < n; i++) {
    ESym y;
    y.name = r.Chance(1, 2) ? r.Pick(pool) : "fn" + std::to_string(i);
    if (!used.insert(y.name).second) continue;
    y.value = at;
    y.size = r.PickOf<uint64_t>({0, 1, 0x10, 0x40});
    y.type = r.Chance(1, 6) ? STT_OBJECT : r.Chance(1, 8) ? STT_NOTYPE : STT_FUNC;
    y.bind = r.Chance(1, 3) ? STB_LOCAL : STB_GLOBAL;
    at += y.size + r.Below(0x20);
    e.syms.push_back(y);
  }
  ESec text;
  text.name = ".text"; text.flags = SHF_ALLOC | SHF_EXECINSTR; text.addr = base + 0x1000; text.offset = 0x1000; text.align = 16;
  text.data = std::string(r.Chance(1, 8) ? 0 : 0x600, '\x90');
  e.secs.push_back(text);
  e.segs.push_back({PT_LOAD, PF_R, 0, base, 0x800, 0x800});
  e.segs.push_back({PT_LOAD, PF_R | PF_X, 0x1000, base + 0x1000, 0x600, 0x600});
  if (r.Chance(3, 4)) {
    std::string raw;
    int len = r.PickOf({0, 4, 8, 16, 20, 20, 20, 24});
    for (int i = 0; i < len; i++) raw += static_cast<char>(r.Next());
    e.AddBuildId(raw);
    m.id = raw;
  }
  if (r.Chance(1, 3)) {  // A second note section with notes of other kinds.
    ESec s;
    s.name = ".note.ABI-tag"; s.type = SHT_NOTE; s.align = 4;
    uint32_t h[4] = {4, 16, 1, 0x554e47};
    s.data.assign(reinterpret_cast<char *>(h), 16);
    s.data += std::string(16, '\1');
    e.secs.push_back(s);
  }
  if (r.Chance(1, 3)) {
    ESec s;
    s.name = ".bss"; s.type = SHT_NOBITS; s.addr = base + 0x3000; s.data = std::string(0x40000, '\0'); s.offset = 0x1600;
    e.secs.push_back(s);
  }
  if (r.Chance(1, 4)) {  // Something for readers that only ask whether there is debug information.
    ESec s;
    s.name = ".debug_str"; s.data = std::string("abc\0", 4);
    e.secs.push_back(s);
  }
  if (r.Chance(1, 3)) {
    ESec str, sym;
    str.name = ".dynstr"; str.type = SHT_STRTAB; str.data = std::string("\0dyn_fn\0", 8);
    auto table = [&](auto one) {
      decltype(one) z[2];
      memset(z, 0, sizeof z);
      z[1].st_name = 1; z[1].st_value = base + 0x1500; z[1].st_size = 0x20; z[1].st_info = ELF64_ST_INFO(STB_GLOBAL, STT_FUNC); z[1].st_shndx = 1;
      return std::string(reinterpret_cast<char *>(z), sizeof z);
    };
    sym.name = ".dynsym"; sym.type = SHT_DYNSYM; sym.entsize = m.SymSize(); sym.align = 8; sym.link = ".dynstr";
    sym.data = m.b32 ? table(Elf32_Sym()) : table(Elf64_Sym());
    e.secs.push_back(str);
    e.secs.push_back(sym);
  }
  e.no_symtab = r.Chance(1, 8);
  m.bytes = e.Build();
  m.shoff = m.Word(m.bytes, FIELD_AT(Ehdr, e_shoff));
  m.shnum = PeekInt<uint16_t>(m.bytes, FIELD_AT(Ehdr, e_shnum));
  if (e.extended) m.shnum = m.Word(m.bytes, m.shoff + FIELD_AT(Shdr, sh_size));
  m.names.push_back("");
  for (auto &s : e.secs) m.names.push_back(s.name);
  if (!e.no_symtab) { m.names.push_back(".symtab"); m.names.push_back(".strtab"); }
  m.names.push_back(".shstrtab");
  return m;
}
uint64_t Wild(Rng &r, uint64_t old, uint64_t file) {
  switch (r.Below(8)) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 1ull << r.Below(64);
    case 3: return old + 1 + r.Below(64);
    case 4: return old - std::min<uint64_t>(old, 1 + r.Below(64));
    case 5: return file + r.Below(9000) - std::min<uint64_t>(file, 64);
    case 6: return r.Below(2 * file);
    default: return r.Mag(63);
  }
}
}  // namespace

VPROP(C17) {
  Rng &r = ctx.rng;
  Made m = Make(r);
  bool ko = r.Chance(1, 4);  // A kernel module has no segments.
  if (ko) {
    if (r.Chance(3, 4)) PokeInt<uint16_t>(m.bytes, FIELD_AT(Ehdr, e_phnum), 0);
    if (r.Chance(3, 4)) PokeInt<uint16_t>(m.bytes, FIELD_AT(Ehdr, e_type), ET_REL);
  }
  std::string path = ctx.Tmp(ko ? "bin.ko" : "bin"), good = ctx.Tmp("good"), bad = m.bytes, how;
  WriteFile(good, m.bytes);
  int kind = r.Below(5);
  std::string hidden;  // A symbol that may be missing.
  if (kind == 0) {
    size_t cut = r.Chance(1, 4) ? r.Below(80) : r.Chance(1, 3) ? m.shoff + r.Below(bad.size() - m.shoff) : r.Below(bad.size());
    bad.resize(cut);
    how = "truncated to " + std::to_string(cut) + " of " + std::to_string(m.bytes.size());
  } else if (kind == 1) {  // File header.
    for (int k = r.In(1, 2); k > 0; k--) {
      struct F { const char *n; size_t at; int w; } f[] = {
        {"e_type", FIELD(Ehdr, e_type)}, {"e_machine", FIELD(Ehdr, e_machine)}, {"e_phoff", FIELD(Ehdr, e_phoff)}, {"e_shoff", FIELD(Ehdr, e_shoff)},
        {"e_phnum", FIELD(Ehdr, e_phnum)}, {"e_shnum", FIELD(Ehdr, e_shnum)}, {"e_shstrndx", FIELD(Ehdr, e_shstrndx)}, {"e_ident", r.Below(EI_NIDENT), 1}};
      auto &x = f[r.Below(8)];
      uint64_t v = Wild(r, PeekInt<uint64_t>(bad, x.at) & (x.w == 8 ? ~0ull : (1ull << 8 * x.w) - 1), bad.size());
      if (x.w == 8) v &= ~7ull;
      for (int i = 0; i < x.w; i++) bad[x.at + i] = static_cast<char>(v >> 8 * i);
      how += std::string(x.n) + "=" + Hex(v) + " ";
    }
  } else if (kind == 2 && m.shnum) {  // Section headers.
    for (int k = r.In(1, 3); k > 0; k--) {
      size_t i = r.Below(m.shnum), h = m.Shdr(i);
      struct F { const char *n; size_t at; int w; } f[] = {
        {"sh_name", FIELD(Shdr, sh_name)}, {"sh_type", FIELD(Shdr, sh_type)}, {"sh_offset", FIELD(Shdr, sh_offset)}, {"sh_size", FIELD(Shdr, sh_size)},
        {"sh_link", FIELD(Shdr, sh_link)}, {"sh_entsize", FIELD(Shdr, sh_entsize)}, {"sh_info", FIELD(Shdr, sh_info)}, {"sh_addr", FIELD(Shdr, sh_addr)}};
      auto &x = f[r.Below(8)];
      uint64_t v = x.at == FIELD_AT(Shdr, sh_type) && r.Chance(2, 3) ? r.PickOf<uint64_t>({SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_NOTE, SHT_NOBITS, SHT_NULL})
                                                                         : Wild(r, PeekInt<uint64_t>(bad, h + x.at) & (x.w == 8 ? ~0ull : 0xffffffffull), bad.size());
      if (x.at == FIELD_AT(Shdr, sh_offset) || x.at == FIELD_AT(Shdr, sh_entsize)) v &= ~7ull;
      for (int j = 0; j < x.w; j++) bad[h + x.at + j] = static_cast<char>(v >> 8 * j);
      how += "section " + std::to_string(i) + " (" + m.names[i] + ") " + x.n + "=" + Hex(v) + " ";
    }
  } else if (kind == 3 && m.Find(".symtab")) {  // One symbol's name is out of its table.
    size_t h = m.Shdr(m.Find(".symtab")), off = m.Word(bad, h + FIELD_AT(Shdr, sh_offset)), sz = m.Word(bad, h + FIELD_AT(Shdr, sh_size));
    size_t n = sz / m.SymSize();
    if (n < 2) { ctx.Count("no_symbols"); return; }
    size_t k = r.In(1, n - 1);
    size_t sh = m.Shdr(m.Find(".strtab")), ss = m.Word(bad, sh + FIELD_AT(Shdr, sh_size)), so = m.Word(bad, sh + FIELD_AT(Shdr, sh_offset));
    uint32_t old = PeekInt<uint32_t>(bad, off + k * m.SymSize());
    hidden = bad.c_str() + so + old;
    uint32_t v = ss + r.PickOf<uint64_t>({0, 1, 5, 0x1000, 0x100000, 0x7fffffff, 0x80000000});
    PokeInt(bad, off + k * m.SymSize(), v);
    how = "name of symbol " + std::to_string(k) + " (" + hidden + ") at " + Hex(v) + " of a table of " + Hex(ss);
  } else {  // Notes, strings, symbols: anything that is not code.
    kind = 4;
    std::vector<size_t> secs;
    for (size_t i = 1; i < m.names.size(); i++) if (m.names[i] != ".text" && m.names[i] != ".bss") secs.push_back(i);
    for (int k = r.In(1, 4); k > 0; k--) {
      size_t i = r.Pick(secs), off = m.Word(bad, m.Shdr(i) + FIELD_AT(Shdr, sh_offset)), sz = m.Word(bad, m.Shdr(i) + FIELD_AT(Shdr, sh_size));
      if (!sz) continue;
      bool word = sz >= 4 && r.Chance(1, 2);
      size_t at = word ? r.Below(sz / 4) * 4 : r.Chance(1, 3) ? sz - 1 : r.Below(sz);
      if (word) PokeInt<uint32_t>(bad, off + at, Wild(r, PeekInt<uint32_t>(bad, off + at), sz));
      else bad[off + at] = r.Chance(1, 2) ? 'x' : static_cast<char>(r.Next());
      how += m.names[i] + "+" + Hex(at) + " ";
    }
  }
  WriteFile(path, bad);
  std::vector<std::string> names(m.names.begin() + 1, m.names.end());
  names.push_back(".none");
  std::string key = kind == 0 ? "truncated" : kind == 1 ? "header" : kind == 2 ? "sections" : kind == 3 ? "name" : "contents";
  auto bad_end = [&](const ChildResult &c, const std::string &what) {
    if (WIFSIGNALED(c.status) && (WTERMSIG(c.status) == SIGKILL)) { ctx.Count("inconclusive_killed"); return true; }
    if (c.err.find("allocation-size-too-big") != std::string::npos || c.err.find("out of memory") != std::string::npos) { ctx.Count("inconclusive_memory"); return true; }
    if (WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGALRM) { ctx.Fail("damage:" + key + ":hang", what + " of a binary with " + how + " does not end"); return true; }
    bool abrt = c.clean_fatal() && (c.err.find("Check failed") != std::string::npos || c.err.find("\nF") != std::string::npos || c.err.find("F20") != std::string::npos || c.err.find("LLVM ERROR") != std::string::npos);
    if (c.exited0() || abrt) { ctx.Count(c.exited0() ? "read" : "refused"); return false; }
    // LLVM's own iterator adds a note section's offset and size without looking at overflow.
    if (c.err.find("Elf_Note_Iterator_Impl") != std::string::npos || c.err.find("::notes_begin(") != std::string::npos) { ctx.Count("inconclusive_llvm_notes"); return true; }
    size_t i = c.err.find("ERROR: AddressSanitizer"), j = c.err.find("runtime error");
    ctx.Fail("damage:" + key + ":" + what, what + " of a binary with " + how + " (status " + std::to_string(c.status) + "): " + c.err.substr(std::min(i, j) == std::string::npos ? 0 : std::min(i, j), 1500));
    return true;
  };
  // 1. The ELF reader.
  std::string want = ReadAll(good, names);
  ChildResult c = RunChild(ctx, [&] { alarm(20); return ReadAll(path, names); });
  if (bad_end(c, "reading")) return;
  if (c.exited0()) {
    if (kind == 3) {
      auto a = Lines(want, "sym "), b = Lines(c.out, "sym ");
      for (auto it = a.begin(); it != a.end();) if (it->compare(4, hidden.size() + 1, hidden + " ") == 0) it = a.erase(it); else ++it;
      for (auto it = b.begin(); it != b.end();) if (it->compare(4, hidden.size() + 1, hidden + " ") == 0) it = b.erase(it); else ++it;
      ctx.Check(a == b, "damage:name:others", [&] { return "with " + how + " other symbols change: " + c.out; });
    }
    // A build id comes from the file.
    size_t p = c.out.find("id "), q = c.out.find('\n', p);
    std::string id = c.out.substr(p + 3, q - p - 3), raw;
    for (size_t i = 0; i + 1 < id.size(); i += 2) raw += static_cast<char>(strtol(id.substr(i, 2).c_str(), nullptr, 16));
    ctx.Check(raw.size() <= 20 && bad.find(raw) != std::string::npos, "damage:id", [&] { return "with " + how + " the build id is " + id + ", which is not in the file"; });
    // So do the names of the symbols.
    for (auto &l : Lines(c.out, "sym ")) {
      std::string name = l.substr(4, l.rfind(" 0x", l.rfind(" 0x") - 1) - 4);
      if (!ctx.Check(bad.find(name) != std::string::npos, "damage:invented", [&] { return "with " + how + " a symbol is reported that is not in the file: " + l; })) break;
    }
    if (kind == 0 && bad.size() < m.shoff) ctx.Check(Lines(c.out, "sym ").empty(), "damage:truncated:symbols", [&] { return "symbols of a file " + how; });
  }
  // 2. The map of symbols and the reader of debug information.
  ChildResult s = RunChild(ctx, [&] {
    alarm(20);
    afdo::SymbolMap map(path);
    std::string o;
    for (auto &[a, n] : map.GetNameAddrMap()) o += a + "\n";
    const std::string *nm; uint64_t st, en;
    for (uint64_t a : {0x400ffful, 0x401000ul, 0x1000ul, 0ul, ~0ul}) map.GetSymbolInfoByAddr(a, &nm, &st, &en);
    std::unique_ptr<afdo::Addr2line> al(afdo::Addr2line::Create(path));
    afdo::SourceStack stack;
    if (al) for (uint64_t a : {0x401000ul, 0x401004ul, 0x1000ul, 0ul}) al->GetInlineStack(a, &stack);
    return o;
  });
  if (bad_end(s, "symbolizing")) return;
#ifdef HAVE_LLVM
  ChildResult b = RunChild(ctx, [&] {
    alarm(20);
    auto bc = afdo::GetBinaryContent(path);
    return bc.ok() ? (*bc)->build_id : std::string(bc.status().message());
  });
  if (bad_end(b, "loading")) return;
#endif
  // 3. The tool as a whole.
  bool big = false;  // A function of that size takes as much time and memory.
  for (auto &l : Lines(c.out, "sym ")) {
    size_t q = l.rfind(" 0x");
    big |= strtoull(l.c_str() + q + 1, nullptr, 16) > 0x40000;
  }
  if (r.Chance(1, 8) && !big) {
    std::string txt = ctx.Tmp("samples"), out = ctx.Tmp("out"), err;
    WriteFile(txt, "1\n401000-401004:7\n1\n401000:7\n0\n");
#ifdef HAVE_LLVM
    int st = RunTool(ctx, Tool("L_tool_create_llvm_prof"), {"--binary=" + path, "--profile=" + txt, "--profiler=text", "--format=text", "--out=" + out}, &err);
#else
    int st = RunTool(ctx, Tool("G_tool_create_gcov"), {"--binary=" + path, "--profile=" + txt, "--profiler=text", "--gcov=" + out}, &err);
#endif
    ctx.Check(!Sanitizer(err) && (st < 1000 || st == 1000 + SIGABRT || st == 1000 + SIGKILL), "damage:tool", [&] { return "with " + how + " the tool ends with " + std::to_string(st) + ": " + err.substr(err.size() - std::min<size_t>(err.size(), 1500)); });
    ctx.Count("tool_runs");
    unlink(out.c_str());
  }
  ctx.Count("files_" + key);
  ctx.Nontrivial(Mix(HashStr(bad), 3));
  ctx.Sample([&] { return how + " -> " + (c.exited0() ? "read: " + c.out : "refused: " + c.err.substr(0, 200)); });
}
