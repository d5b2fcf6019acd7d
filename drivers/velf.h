// Writes small ELF64 files with exactly chosen segments, sections and symbols.
#ifndef VERIF_VELF_H_
#define VERIF_VELF_H_
#include <elf.h>
#include "vcommon.h"

namespace vh {
struct ESec {
  std::string name;
  uint32_t type = SHT_PROGBITS;
  uint64_t flags = 0, addr = 0;
  std::string data;
  std::string link;      // Name of the section sh_link refers to (index instead: link_idx).
  uint32_t info = 0;
  uint64_t align = 1, entsize = 0;
  int64_t offset = -1;   // Wanted file offset; -1: wherever there is room.
  int link_idx = -1;
};
struct ESeg {
  uint32_t type = PT_LOAD, flags = PF_R | PF_X;
  uint64_t offset = 0, vaddr = 0, filesz = 0, memsz = 0;
};
struct ESym {
  std::string name;
  uint64_t value = 0, size = 0;
  int type = STT_FUNC, bind = STB_GLOBAL;
  std::string sec = ".text";
};
struct Elf {
  uint16_t type = ET_EXEC, machine = EM_X86_64;
  uint64_t entry = 0;
  std::vector<ESeg> segs;
  std::vector<ESec> secs;
  std::vector<ESym> syms;
  bool no_symtab = false;
  bool bits32 = false;
  bool extended = false;  // numbers of headers in the first section header

  static void Put(std::string &s, const void *p, size_t n) { s.append(static_cast<const char *>(p), n); }
  void AddBuildId(const std::string &raw) {
    std::string n;
    uint32_t h[3] = {4, static_cast<uint32_t>(raw.size()), 3};
    Put(n, h, 12);
    n.append("GNU\0", 4);
    n += raw;
    while (n.size() % 4) n += '\0';
    ESec s;
    s.name = ".note.gnu.build-id";
    s.type = SHT_NOTE;
    s.flags = SHF_ALLOC;
    s.align = 4;
    s.data = n;
    secs.push_back(s);
  }
  std::string Build() const { return bits32 ? BuildAs<Elf32_Ehdr, Elf32_Phdr, Elf32_Shdr, Elf32_Sym>() : BuildAs<Elf64_Ehdr, Elf64_Phdr, Elf64_Shdr, Elf64_Sym>(); }
  template <class Ehdr, class Phdr, class Shdr, class Sym> std::string BuildAs() const {
    std::vector<ESec> all;
    ESec null;
    null.type = SHT_NULL;
    all.push_back(null);
    for (auto &s : secs) all.push_back(s);
    auto index = [&](const std::string &n) {
      for (size_t i = 1; i < all.size(); i++)
        if (all[i].name == n) return static_cast<int>(i);
      return 0;
    };
    if (!no_symtab) {
      ESec strtab, symtab;
      strtab.name = ".strtab";
      strtab.type = SHT_STRTAB;
      strtab.data = std::string(1, '\0');
      symtab.name = ".symtab";
      symtab.type = SHT_SYMTAB;
      symtab.entsize = sizeof(Sym);
      symtab.align = 8;
      symtab.link = ".strtab";
      Sym z;
      memset(&z, 0, sizeof z);
      Put(symtab.data, &z, sizeof z);
      uint32_t locals = 1;
      for (int pass = 0; pass < 2; pass++)
        for (auto &y : syms) {
          bool local = y.bind == STB_LOCAL;
          if (local != (pass == 0)) continue;
          if (local) ++locals;
          Sym e;
          memset(&e, 0, sizeof e);
          e.st_name = strtab.data.size();
          strtab.data += y.name + '\0';
          e.st_value = y.value;
          e.st_size = y.size;
          e.st_info = ELF64_ST_INFO(y.bind, y.type);
          e.st_shndx = y.sec == "ABS" ? SHN_ABS : y.sec == "UND" ? SHN_UNDEF : index(y.sec);
          Put(symtab.data, &e, sizeof e);
        }
      symtab.info = locals;
      all.push_back(symtab);
      all.push_back(strtab);
    }
    ESec shstr;
    shstr.name = ".shstrtab";
    shstr.type = SHT_STRTAB;
    all.push_back(shstr);
    std::string names(1, '\0');
    std::vector<uint32_t> noff;
    for (auto &s : all) {
      noff.push_back(s.name.empty() ? 0 : names.size());
      if (!s.name.empty()) names += s.name + '\0';
    }
    all.back().data = names;

    std::string out(sizeof(Ehdr) + segs.size() * sizeof(Phdr), '\0');
    std::vector<uint64_t> off(all.size(), 0);
    // Sections with a wanted offset first.
    for (size_t i = 1; i < all.size(); i++) {
      if (all[i].offset < 0) continue;
      off[i] = all[i].offset;
      if (all[i].type == SHT_NOBITS) continue;
      if (out.size() < off[i] + all[i].data.size()) out.resize(off[i] + all[i].data.size());
      out.replace(off[i], all[i].data.size(), all[i].data);
    }
    for (auto &g : segs)
      if (g.filesz && out.size() < g.offset + g.filesz) out.resize(g.offset + g.filesz);
    for (size_t i = 1; i < all.size(); i++) {
      if (all[i].offset >= 0) continue;
      while (out.size() % std::max<uint64_t>(1, all[i].align)) out += '\0';
      off[i] = out.size();
      if (all[i].type != SHT_NOBITS) out += all[i].data;
    }
    while (out.size() % 8) out += '\0';
    uint64_t shoff = out.size();
    for (size_t i = 0; i < all.size(); i++) {
      Shdr h;
      memset(&h, 0, sizeof h);
      if (i == 0 && extended) {
        h.sh_size = all.size();
        h.sh_link = all.size() - 1;
        Put(out, &h, sizeof h);
        continue;
      }
      h.sh_name = noff[i];
      h.sh_type = all[i].type;
      h.sh_flags = all[i].flags;
      h.sh_addr = all[i].addr;
      h.sh_offset = off[i];
      h.sh_size = all[i].data.size();
      h.sh_link = all[i].link_idx >= 0 ? all[i].link_idx : all[i].link.empty() ? 0 : index(all[i].link);
      h.sh_info = all[i].info;
      h.sh_addralign = i ? all[i].align : 0;
      h.sh_entsize = all[i].entsize;
      Put(out, &h, sizeof h);
    }
    Ehdr e;
    memset(&e, 0, sizeof e);
    memcpy(e.e_ident, ELFMAG, SELFMAG);
    e.e_ident[EI_CLASS] = bits32 ? ELFCLASS32 : ELFCLASS64;
    e.e_ident[EI_DATA] = ELFDATA2LSB;
    e.e_ident[EI_VERSION] = EV_CURRENT;
    e.e_type = type;
    e.e_machine = machine;
    e.e_version = EV_CURRENT;
    e.e_entry = entry;
    e.e_phoff = segs.empty() ? 0 : sizeof(Ehdr);
    e.e_shoff = shoff;
    e.e_ehsize = sizeof e;
    e.e_phentsize = sizeof(Phdr);
    e.e_phnum = segs.size();
    e.e_shentsize = sizeof(Shdr);
    e.e_shnum = all.size();
    e.e_shstrndx = all.size() - 1;
    if (extended) {
      e.e_shnum = SHN_UNDEF;
      e.e_shstrndx = SHN_XINDEX;
    }
    memcpy(&out[0], &e, sizeof e);
    for (size_t i = 0; i < segs.size(); i++) {
      Phdr p;
      memset(&p, 0, sizeof p);
      p.p_type = segs[i].type;
      p.p_flags = segs[i].flags;
      p.p_offset = segs[i].offset;
      p.p_vaddr = p.p_paddr = segs[i].vaddr;
      p.p_filesz = segs[i].filesz;
      p.p_memsz = segs[i].memsz;
      p.p_align = 0x1000;
      memcpy(&out[sizeof(Ehdr) + i * sizeof(Phdr)], &p, sizeof p);
    }
    return out;
  }
};
inline std::string Uleb(uint64_t v) {
  std::string s;
  do {
    uint8_t b = v & 0x7f;
    v >>= 7;
    s += static_cast<char>(v ? b | 0x80 : b);
  } while (v);
  return s;
}
}  // namespace vh
#endif
