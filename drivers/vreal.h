// Real programs: small random C++ programs, compiled by the installed compilers
// with optimization and debug info, and what llvm-symbolizer (its own DWARF
// reader, not the code under test for create_gcov) says about every address.
#ifndef VERIF_VREAL_H_
#define VERIF_VREAL_H_
#include <elf.h>
#include <filesystem>
#include "vcommon.h"

namespace vh {
struct RFrame {
  std::string func, path;
  uint32_t start_line = 0, line = 0, disc = 0;
  bool operator==(const RFrame &o) const {
    return func == o.func && path == o.path && start_line == o.start_line && line == o.line && disc == o.disc;
  }
};
using RStack = std::vector<RFrame>;  // Leaf first.
inline std::string ShowStack(const RStack &s) {
  std::string o;
  for (auto &f : s)
    o += "\n    " + f.func + " " + f.path + " start " + std::to_string(f.start_line) + " line " + std::to_string(f.line) + "." + std::to_string(f.disc);
  return o.empty() ? " (nothing)" : o;
}
inline std::string NormalPath(const std::string &dir, const std::string &file) {
  std::filesystem::path p = std::filesystem::path(dir) / file;
  std::string s = p.lexically_normal().string();
  return s;
}

struct RealProgram {
  std::string dir, binary, flags, compiler;
  std::vector<std::string> sources;
};

class ProgGen {
 public:
  bool nested = false;  // GNU C nested functions
  explicit ProgGen(Rng &r) : r_(r) {}
  // Writes the sources of a program below `dir`; returns the .cc files.
  std::vector<std::string> Write(const std::string &dir, bool c_only) {
    c_ = c_only;
    std::string ext = c_ ? ".c" : ".cc";
    int nh = 1 + r_.Below(3), nt = 1 + r_.Below(3);
    std::vector<std::string> dirs = {"", "inc", "inc/sub", "lib"};
    std::vector<std::string> headers;
    for (int i = 0; i < nh; i++) {
      std::string d = r_.Pick(dirs), path = (d.empty() ? "" : d + "/") + "h" + std::to_string(i) + ".h";
      std::string t = "#pragma once\n";
      for (auto &h : headers) t += "#include \"" + h + "\"\n";
      scope_ = "h" + std::to_string(i);
      for (int k = 0, n = 1 + r_.Below(4); k < n; k++) t += Blank() + Function(true);
      if (!c_ && r_.Chance(1, 2)) t += Blank() + Struct(true);
      Put(dir, path, t);
      headers.push_back(path);
    }
    std::vector<std::string> shared = callable_, sources, ext_decls;
    for (int i = 0; i < nt; i++) {
      callable_ = shared;
      scope_ = "t" + std::to_string(i);
      std::string t;
      for (auto &h : headers) t += "#include \"" + h + "\"\n";
      t += "extern int sink;\nextern int printf(const char *, ...)" + std::string(c_ ? "" : " __attribute__((nothrow))") + ";\n";
      if (!c_) t = Replace(t, "extern int printf", "extern \"C\" int printf");
      for (auto &e : ext_decls) { t += "int " + e + "(int);\n"; callable_.push_back(e); }
      if (!c_ && r_.Chance(1, 2)) t += Blank() + Struct(false);
      for (int k = 0, n = 1 + r_.Below(5); k < n; k++) t += Blank() + Function(false);
      for (auto &e : own_extern_) ext_decls.push_back(e);
      own_extern_.clear();
      if (!c_ && r_.Chance(1, 3)) t += "int global_" + scope_ + " = " + Call("3") + ";\n";
      if (i + 1 == nt) {
        t += "int sink;\nint main(int argc, char **argv) {\n  int a = argc;\n";
        for (auto &f : callable_) t += "  a += " + f + "(a);\n";
        t += "  return a + sink;\n}\n";
      } else if (r_.Chance(2, 3)) {
        t += "int user_" + scope_ + "(int a) {\n";
        for (auto &f : callable_) if (r_.Chance(1, 2)) t += "  a ^= " + f + "(a);\n";
        t += "  return a;\n}\n";
        ext_decls.push_back("user_" + scope_);
      }
      std::string d = r_.PickOf<std::string>({"", "src"}), path = (d.empty() ? "" : d + "/") + "m" + std::to_string(i) + ext;
      Put(dir, path, t);
      sources.push_back(path);
    }
    return sources;
  }

 private:
  static std::string Replace(std::string s, const std::string &a, const std::string &b) {
    size_t p = s.find(a);
    if (p != std::string::npos) s.replace(p, a.size(), b);
    return s;
  }
  void Put(const std::string &dir, const std::string &path, const std::string &text) {
    std::filesystem::create_directories(std::filesystem::path(dir + "/" + path).parent_path());
    WriteFile(dir + "/" + path, text);
  }
  std::string Blank() { return std::string(r_.Chance(1, 8) ? r_.Below(400) : r_.Below(3), '\n'); }
  std::string Call(const std::string &arg) {
    if (callable_.empty()) return "(" + arg + " + 1)";
    return r_.Pick(callable_) + "(" + arg + ")";
  }
  std::string Stmt(int depth) {
    std::string nl = r_.Chance(2, 3) ? "\n  " : " ";
    switch (r_.Below(depth > 0 ? 9 : 5)) {
      case 0: return "a = a * " + std::to_string(1 + r_.Below(9)) + " + " + Call("a") + ";" + nl;
      case 1: return "sink += a;" + nl;
      case 2: return "a += " + Call("a ^ " + std::to_string(r_.Below(20))) + ";" + nl;
      case 3: return "b ^= a >> 1;" + nl;
      case 4: return "a = a > b ? " + Call("b") + " : b + " + std::to_string(r_.Below(5)) + ";" + nl;
      case 5: return "for (int i = 0; i < (b & 15); i++) {" + nl + Stmt(depth - 1) + Stmt(depth - 1) + "}" + nl;
      case 6: return "if (__builtin_expect(a == " + std::to_string(r_.Below(99)) + ", 0)) {" + nl + Stmt(depth - 1) + Stmt(depth - 1) + (r_.Chance(1, 3) ? "__builtin_trap(); " : "") + "}" + nl;
      case 7: return "if (a < b) {" + nl + Stmt(depth - 1) + "} else {" + nl + Stmt(depth - 1) + "}" + nl;
      default: return "switch (a & 7) { case 1: " + Stmt(depth - 1) + "break; case 3: " + Stmt(depth - 1) + nl + "case 5: " + Stmt(depth - 1) + "break; default: b++; }" + nl;
    }
  }
  std::string Body() {
    std::string nl = r_.Chance(3, 4) ? "\n  " : " ";
    std::string s = "{" + nl + "int b = a + " + std::to_string(r_.Below(7)) + ";" + nl;
    for (int k = 0, n = 1 + r_.Below(4); k < n; k++) s += Stmt(2);
    if (!c_ && r_.Chance(1, 4)) s += "auto fn = [&](int a) {" + nl + Stmt(1) + "return a + b; };" + nl + "a += fn(a) - fn(b);" + nl;
    if (c_ && nested && r_.Chance(1, 3)) s += std::string(r_.Chance(1, 2) ? "__attribute__((noinline)) " : "") + "int fn(int a) {" + nl + Stmt(1) + "return a + b; }" + nl + "a += fn(a) - fn(b);" + nl;
    return s + "return a + b;" + (r_.Chance(1, 2) ? "\n}" : " }") + "\n";
  }
  std::string Function(bool header) {
    std::string n = "f_" + scope_ + "_" + std::to_string(next_++);
    std::string attr;
    switch (r_.Below(8)) {
      case 0: case 1: attr = "__attribute__((always_inline)) "; break;
      case 2: attr = "__attribute__((noinline)) "; break;
      case 3: attr = "__attribute__((noinline, cold)) "; break;
      case 4: attr = "__attribute__((hot)) "; break;
    }
    std::string nl = r_.Chance(1, 3) ? "\n" : " ";
    std::string s;
    bool stat = header || r_.Chance(1, 2) || attr.find("always") != std::string::npos;
    std::string call = n;
    std::string body = header ? "extern int sink;\n" + std::string() : "";
    if (!c_ && r_.Chance(1, 3)) {
      s = body + "namespace ns" + std::to_string(r_.Below(3)) + " {\n" + attr + "inline" + nl + "int " + n + "(int a) " + Body() + "}\n";
      size_t p = s.find("namespace ns");
      call = s.substr(p + 10, 3) + "::" + n;
    } else if (!c_ && r_.Chance(1, 4)) {
      s = body + "template <int N>\n" + attr + "inline int " + n + "(int a) " + Replace(Body(), "int b = a +", "int b = N + a +");
      call = n + "<" + std::to_string(r_.Below(3)) + ">";
    } else {
      s = body + (stat ? "static " + std::string(attr.find("noinline") == std::string::npos ? "inline " : "") : "") + attr + "int" + nl + n + "(int a) " + Body();
      if (!stat) own_extern_.push_back(n);
    }
    callable_.push_back(call);
    return s;
  }
  std::string Struct(bool header) {
    std::string n = "S_" + scope_ + "_" + std::to_string(next_++);
    std::string s = "extern int sink;\nstruct " + n + " {\n  int v;\n  " + n + "(int a) : v(a) " + (r_.Chance(1, 2) ? "{ v += sink; }\n" : "{\n    v += " + Call("a") + ";\n  }\n");
    s += "  int one(int a) const " + Body();
    s += "  inline int two(int a);\n  static int three(int a) " + Body();
    if (r_.Chance(1, 2)) s += "  ~" + n + "() { sink = v; }\n";
    s += "};\ninline int " + n + "::two(int a) " + Body();
    std::string u = "use_" + n;
    s += "static inline int " + u + "(int a) {\n  " + n + " s(a);\n  return s.one(a) + s.two(a) + " + n + "::three(a);\n}\n";
    callable_.push_back(u);
    return s;
  }
  Rng &r_;
  bool c_ = false;
  int next_ = 0;
  std::string scope_;
  std::vector<std::string> callable_, own_extern_;
};

inline int Sh(const std::string &cmd) { return system(cmd.c_str()); }

// What llvm-symbolizer says about the addresses. False: it could not be run.
inline bool Symbolize(const std::string &binary, const std::vector<uint64_t> &addrs, const std::string &tmp,
                      std::map<uint64_t, RStack> *out) {
  std::string in;
  for (uint64_t a : addrs) in += Hex(a) + "\n";
  WriteFile(tmp + ".in", in);
  // Without symbol table: llvm-symbolizer would prefer its names.
  if (Sh("objcopy -w --strip-symbol='*' " + binary + " " + tmp + ".bin") != 0) return false;
  if (Sh("llvm-symbolizer --obj=" + tmp + ".bin --verbose --no-demangle --inlines --functions=linkage --output-style=LLVM --print-address < " + tmp + ".in > " + tmp + ".out 2> " + tmp + ".err") != 0) return false;
  std::ifstream f(tmp + ".out");
  std::string l;
  uint64_t at = 0;
  RStack *cur = nullptr;
  auto val = [](const std::string &l) { return l.substr(l.find(": ") + 2); };
  bool want_addr = true;
  while (std::getline(f, l)) {
    if (l.empty()) { want_addr = true; continue; }
    if (want_addr) {
      at = strtoull(l.c_str(), nullptr, 0);
      cur = &(*out)[at];
      cur->clear();
      want_addr = false;
    } else if (l.compare(0, 2, "  ") != 0) {
      cur->emplace_back();
      cur->back().func = l;
    } else if (l.compare(0, 12, "  Filename: ") == 0) {
      cur->back().path = NormalPath("", val(l));
    } else if (l.compare(0, 23, "  Function start line: ") == 0) {
      cur->back().start_line = atoi(val(l).c_str());
    } else if (l.compare(0, 8, "  Line: ") == 0) {
      cur->back().line = atoi(val(l).c_str());
    } else if (l.compare(0, 17, "  Discriminator: ") == 0) {
      cur->back().disc = strtoul(val(l).c_str(), nullptr, 10);
    }
  }
  for (auto s : {".bin", ".in", ".out", ".err"}) unlink((tmp + s).c_str());
  return out->size() == addrs.size();
}

// The addresses [start, end) of the functions the program's sources define.
inline std::vector<std::pair<uint64_t, uint64_t>> TextOf(const std::string &binary, const std::string &tmp) {
  std::vector<std::pair<uint64_t, uint64_t>> out;
  Sh("readelf -SW " + binary + " > " + tmp + ".s 2>/dev/null");
  std::ifstream f(tmp + ".s");
  std::string l;
  while (std::getline(f, l)) {
    size_t p = l.find("] .text");
    if (p == std::string::npos) continue;
    std::istringstream s(l.substr(p + 2));
    std::string name, type, addr, off, size;
    s >> name >> type >> addr >> off >> size;
    uint64_t a = strtoull(addr.c_str(), nullptr, 16);
    out.push_back({a, a + strtoull(size.c_str(), nullptr, 16)});
  }
  unlink((tmp + ".s").c_str());
  return out;
}

// The parts of an ELF file the monitors need, read on their own.
struct RSym { std::string name, sec; uint64_t addr = 0, size = 0; int type = 0; };
struct RElf {
  uint64_t off = 0, vaddr = 0, memsz = 0;  // executable segment
  bool pie = false;
  std::string build_id;  // hex
  std::vector<RSym> syms;  // defined, of .symtab
};
inline bool ParseElf(const std::string &path, RElf *e) {
  std::string d = ReadFile(path);
  Elf64_Ehdr h;
  if (d.size() < sizeof h) return false;
  memcpy(&h, d.data(), sizeof h);
  e->pie = h.e_type == ET_DYN;
  for (int i = 0; i < h.e_phnum; i++) {
    Elf64_Phdr p;
    memcpy(&p, d.data() + h.e_phoff + i * sizeof p, sizeof p);
    if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) { e->off = p.p_offset; e->vaddr = p.p_vaddr; e->memsz = p.p_memsz; }
  }
  std::vector<Elf64_Shdr> sh(h.e_shnum);
  for (int i = 0; i < h.e_shnum; i++) memcpy(&sh[i], d.data() + h.e_shoff + i * sizeof sh[i], sizeof sh[i]);
  auto name = [&](int i) { return std::string(d.c_str() + sh[h.e_shstrndx].sh_offset + sh[i].sh_name); };
  for (int i = 0; i < h.e_shnum; i++) {
    if (name(i) == ".note.gnu.build-id") {
      std::string raw = d.substr(sh[i].sh_offset + 16, sh[i].sh_size - 16);
      for (unsigned char c : raw) { char b[4]; snprintf(b, sizeof b, "%02x", c); e->build_id += b; }
    }
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++) {
      Elf64_Sym s;
      memcpy(&s, d.data() + sh[i].sh_offset + k * sizeof s, sizeof s);
      if (s.st_shndx == SHN_UNDEF || s.st_shndx >= h.e_shnum) continue;
      e->syms.push_back({d.c_str() + sh[sh[i].sh_link].sh_offset + s.st_name, name(s.st_shndx), s.st_value, s.st_size, ELF64_ST_TYPE(s.st_info)});
    }
  }
  return e->memsz != 0;
}
}  // namespace vh
#endif
