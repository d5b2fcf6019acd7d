// Random programs with an SHT_LLVM_BB_ADDR_MAP section, as the linker lays them out.
#ifndef VERIF_VBBMAP_H_
#define VERIF_VBBMAP_H_
#include "vcommon.h"
#include "velf.h"

namespace vh {
struct PBlock {
  uint32_t id = 0;
  uint64_t addr = 0, size = 0;
  bool ret = false, tail = false, pad = false, ft = false, ind = false;
  uint64_t end() const { return addr + size; }
};
struct PFunc {
  uint64_t addr = 0;
  std::string sec;                  // as written
  std::vector<std::string> names;   // of the symbols there that count, in the order of the symbol table
  std::vector<PBlock> bbs;
  uint64_t end() const { return bbs.back().end(); }
  std::string OutSec() const { return sec == ".text" || sec.rfind(".text.", 0) == 0 ? ".text" : sec; }
};
struct Prog {
  std::string path;
  bool arm = false, pie = false;
  std::vector<PFunc> funcs;         // by address, those with an address map
  std::vector<std::pair<uint64_t, std::string>> syms;
  uint64_t lo = 0, hi = 0;
  std::string code;                 // of [lo, hi)
};
struct ProgOptions {
  int max_funcs = 5, max_blocks = 7;
  bool aligned = false;      // instruction sized blocks
  bool awkward = true;       // duplicate names, missing symbols, other sections
  std::string build_id;      // raw
};

inline Prog GenProg(Ctx &ctx, const ProgOptions &o, const std::string &file = "prog") {
  Rng &r = ctx.rng;
  Prog p;
  Elf e;
  p.path = ctx.Tmp(file);
  p.arm = r.Chance(1, 3);
  p.pie = r.Chance(1, 2);
  e.machine = p.arm ? EM_AARCH64 : EM_X86_64;
  e.type = p.pie ? ET_DYN : ET_EXEC;
  if (!o.build_id.empty()) e.AddBuildId(o.build_id);
  bool al = o.aligned || p.arm;
  uint64_t va = p.pie ? 0x1000 : r.PickOf<uint64_t>({0x400000, 0x400000, 0x10000000, 0x240000000, 0xffffffff81000000ull});
  p.lo = va;
  static const char *kSecs[] = {".text", ".text.hot", ".text.unlikely.x", ".init.text", "other_text", ".text_like"};
  int nsec = 1 + r.Below(o.awkward ? 3 : 2);
  std::string map;
  struct Sym { std::string name; uint64_t value, size; int type, bind; std::string sec; };
  std::vector<Sym> syms;
  int nf = 1 + r.Below(o.max_funcs), serial = 0;
  uint64_t a = va;
  std::vector<std::string> secs;
  std::vector<std::pair<uint64_t, uint64_t>> shape;  // Gaps and sizes of a family of like functions.
  for (int s = 0; s < nsec; s++) {
    std::string sec = s == 0 && r.Chance(3, 4) ? ".text" : kSecs[r.Below(o.awkward ? 6 : 3)];
    if (std::count(secs.begin(), secs.end(), sec)) continue;
    secs.push_back(sec);
    uint64_t sec_start = a;
    for (int i = 0, n = s == 0 ? 1 + nf / 2 : nf / 2; i < n; i++) {
      a += r.Chance(1, 2) ? 0 : (al ? 4 : 1) * r.Below(9);
      PFunc f;
      f.addr = a;
      f.sec = sec;
      std::set<uint32_t> ids;
      int nb = 1 + r.Below(o.max_blocks);
      bool like = o.awkward && r.Chance(1, 4);
      auto sh = shape;
      if (like && !sh.empty()) {
        nb = sh.size();
        if (r.Chance(1, 4) && nb > 1) sh[1 + r.Below(nb - 1)].first += al ? 4 : 1 + r.Below(3);
        if (r.Chance(1, 8)) sh[r.Below(nb)].second += al ? 4 : 1;
      }
      for (int j = 0; j < nb; j++) {
        PBlock b;
        if (like && !shape.empty()) a += sh[j].first;
        else if (j && r.Chance(1, 8)) a += (al ? 4 : 1) * r.Below(4);
        b.addr = a;
        b.size = r.Chance(1, 7) ? 0 : al ? 4 * (1 + r.Below(6)) : 1 + r.Below(24);
        if (nb == 1 && !b.size) b.size = 4;
        if (like && !shape.empty()) b.size = sh[j].second;
        b.id = j == 0 ? 0 : r.Chance(1, 2) ? j : r.Below(100);
        while (!ids.insert(b.id).second) ++b.id;
        b.ft = j + 1 < nb ? r.Chance(3, 4) : r.Chance(1, 12);
        b.ret = b.size && r.Chance(1, 4); b.tail = b.size && r.Chance(1, 8); b.pad = r.Chance(1, 8); b.ind = r.Chance(1, 8);
        a += b.size;
        f.bbs.push_back(b);
      }
      if (a == f.addr) { f.bbs[0].size = 4; a += 4; for (size_t j = 1; j < f.bbs.size(); j++) f.bbs[j].addr += 4; }
      if (like && shape.empty())
        for (size_t j = 0; j < f.bbs.size(); j++) shape.push_back({j ? f.bbs[j].addr - f.bbs[j - 1].end() : 0, f.bbs[j].size});
      bool uniq = like && r.Chance(7, 8);
      // Symbols.
      uint64_t size = a - f.addr;
      auto name = [&] {
        if (uniq) { uniq = false; return std::string("u.__uniq.9"); }
        if (o.awkward && r.Chance(1, 10)) return r.PickOf<std::string>({"dup", "dup2", "u.__uniq.1", "u.__uniq.2"});
        std::string n = r.PickOf<std::string>({"f", "foo.", "_Zbar"}) + std::to_string(serial++);
        return n;
      };
      int ns = o.awkward && r.Chance(1, 12) ? 0 : r.Chance(1, 5) ? 2 + r.Below(2) : 1;
      for (int k = 0; k < ns; k++) {
        Sym y{name(), f.addr, size, STT_FUNC, r.PickOf({STB_GLOBAL, STB_GLOBAL, STB_LOCAL, STB_WEAK}), sec};
        if (o.awkward && r.Chance(1, 12)) y.size = r.Chance(1, 2) ? 0 : size + 4;
        if (o.awkward && r.Chance(1, 15)) y.type = r.PickOf({STT_NOTYPE, STT_OBJECT});
        syms.push_back(y);
      }
      if (o.awkward && size > 1 && r.Chance(1, 10)) syms.push_back({"inside" + std::to_string(serial++), f.addr + 1, 2, STT_FUNC, STB_LOCAL, sec});
      if (!(o.awkward && r.Chance(1, 12))) {
        map += static_cast<char>(2);
        map += '\0';
        map.append(reinterpret_cast<const char *>(&f.addr), 8);
        map += Uleb(f.bbs.size());
        uint64_t prev = f.addr;
        for (auto &b : f.bbs) {
          map += Uleb(b.id) + Uleb(b.addr - prev) + Uleb(b.size) + Uleb(b.ret | b.tail << 1 | b.pad << 2 | b.ft << 3 | b.ind << 4);
          prev = b.end();
        }
        p.funcs.push_back(f);
      }
    }
    ESec t;
    t.name = sec;
    t.flags = SHF_ALLOC | SHF_EXECINSTR;
    t.addr = sec_start;
    t.offset = 0x1000 + (sec_start - va);
    while ((a - sec_start) % 4) ++a;
    if (a == sec_start) a += 4;
    if (p.arm) for (uint64_t i = 0; i < (a - sec_start) / 4; i++) t.data += std::string("\x1f\x20\x03\xd5", 4);
    else t.data = std::string(a - sec_start, '\x90');
    e.secs.push_back(t);
  }
  p.hi = a;
  ESeg g;
  g.offset = 0x1000; g.vaddr = va; g.filesz = g.memsz = a - va;
  e.segs.push_back(g);
  ESec m;
  m.name = ".llvm_bb_addr_map";
  m.type = 0x6fff4c0a;
  m.flags = SHF_LINK_ORDER;
  m.link = secs[0];
  m.data = map;
  e.secs.push_back(m);
  std::map<uint64_t, std::pair<uint64_t, std::vector<std::pair<std::string, std::string>>>> at;
  for (int pass = 0; pass < 2; pass++)
    for (auto &y : syms) {
      if ((y.bind == STB_LOCAL) != (pass == 0)) continue;
      if (y.type != STT_FUNC || !y.size) continue;
      auto &x = at[y.value];
      if (x.second.empty()) x.first = y.size;
      if (x.first == y.size) x.second.push_back({y.name, y.sec});
    }
  for (auto &f : p.funcs)
    for (auto &[n, s] : at[f.addr].second) f.names.push_back(n);
  for (auto &y : syms) {
    ESym x;
    x.name = y.name; x.value = y.value; x.size = y.size; x.type = y.type; x.bind = y.bind; x.sec = y.sec;
    e.syms.push_back(x);
  }
  WriteFile(p.path, e.Build());
  return p;
}
}  // namespace vh
#endif
