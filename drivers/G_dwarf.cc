// link: core
// Inline stacks of create_gcov's own DWARF reader (C16).
#include "addr2line.h"
#include "vdwarf.h"
#include "vreal.h"
using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
const std::vector<std::string> kCompilers = {"gcc"};
bool SamePath(const std::string &got, const std::string &want, const std::string &) { return got == want; }
// The clones of a constructor or destructor (C1, C2, C4...) go by the name of any.
bool SameFunction(const std::string &got, const std::string &want) {
  if (got.size() != want.size()) return false;
  for (size_t i = 0; i < got.size(); i++)
    if (got[i] != want[i] && (i == 0 || (got[i - 1] != 'C' && got[i - 1] != 'D') || !isdigit(got[i]) || !isdigit(want[i]))) return false;
  return true;
}
const int kMinVersion = 2;
const bool kSdata = true, kNoLineZero = true, kOutsideEmpty = true, kAbsolute = true;
}  // namespace
#include "vdwarf_real.inc"
#include "vdwarf_synth.inc"

// Packages of many units, where hashes of the index collide.
VPROP(C16_package) {
  Rng &r = ctx.rng;
  RealProgram p;
  p.dir = ctx.Tmp("pack");
  Sh("rm -rf " + p.dir + " && mkdir -p " + p.dir);
  int n = 4 + r.Below(22);
  std::string main = "int printf(const char *, ...);\n", calls, srcs;
  for (int i = 0; i < n; i++) {
    std::string k = std::to_string(i), s;
    int blank = r.Below(40), funcs = 1 + r.Below(3);
    for (int j = 0; j < funcs; j++) {
      std::string q = k + "_" + std::to_string(j);
      s += "static inline __attribute__((always_inline)) int in" + q + "(int x) {\n" + std::string(r.Below(4), '\n') + "  return x * " + std::to_string(3 + r.Below(50)) + " ^ x / 7;\n}\n" + std::string(blank, '\n');
      s += "int f" + q + "(int x) {\n  int s = 0;\n  for (int i = 0; i < x; i++)\n    s += in" + q + "(s + i);\n  return s;\n}\n";
      main += "int f" + q + "(int);\n";
      calls += "  s += f" + q + "(c);\n";
    }
    WriteFile(p.dir + "/u" + k + ".c", s);
    srcs += " u" + k + ".c";
  }
  WriteFile(p.dir + "/main.c", main + "int main(int c, char **v) {\n  int s = 0;\n" + calls + "  printf(\"%d\", s);\n}\n");
  p.binary = p.dir + "/prog";
  std::string flags = r.PickOf<std::string>({"-O1", "-O2", "-Os"}) + r.PickOf<std::string>({"", " -no-pie -fno-pie"}) + " -gdwarf-4 -gsplit-dwarf";
  if (Sh("cd " + p.dir + " && gcc -w " + flags + " main.c" + srcs + " -o prog 2>err && timeout 20 dwp -e prog -o prog.dwp 2>>err >&2") != 0) { ctx.Count("not_compiled"); return; }
  ctx.Count("packages");
  ctx.Count("packaged_units", n + 1);
  CompareProgram(ctx, p, "a package of " + std::to_string(n + 1) + " units, gcc " + flags, true);
}
