// link: core
// Inline stacks of create_llvm_prof's Addr2line (C16).
#include "addr2line.h"
#include "vdwarf.h"
#include "vreal.h"
using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
const std::vector<std::string> kCompilers = {"clang", "clang", "gcc"};
// The directory is as the compiler was told, so the path may be relative to the
// directory of compilation.
bool SamePath(const std::string &got, const std::string &want, const std::string &comp_dir) {
  return got == want || NormalPath(comp_dir, got) == want;
}
bool SameFunction(const std::string &got, const std::string &want) { return got == want; }
const int kMinVersion = 2;
const bool kSdata = false, kNoLineZero = false, kOutsideEmpty = true, kAbsolute = false;
}  // namespace
#include "vdwarf_real.inc"
#include "vdwarf_synth.inc"

// Kernel modules: relocatable files whose sections all start at address 0. A
// program linked from the module tells what is at each address of .text.
VPROP(C16_module) {
  Rng &r = ctx.rng;
  RealProgram p;
  p.dir = ctx.Tmp("module");
  Sh("rm -rf " + p.dir);
  ProgGen gen(r);
  p.sources = gen.Write(p.dir, true);
  p.flags = r.PickOf<std::string>({"-O1", "-O2", "-O3", "-Os"}) + " -fdebug-info-for-profiling -gdwarf-" + std::to_string(r.In(3, 5));
  bool others = r.Chance(3, 4);
  std::string cmd = "cd " + p.dir, objs;
  int k = 0;
  for (auto &s : p.sources) {
    std::string o = "o" + std::to_string(k) + ".o";
    if (others && r.Chance(2, 3)) {
      // Functions for the start and end of the module.
      std::string text = "\n";
      for (int n = 1 + r.Below(3); n > 0; n--) {
        std::string id = std::to_string(k) + "_" + std::to_string(n), nl = r.Chance(1, 3) ? " " : "\n  ";
        text += "extern int sink;\nstatic inline int in" + id + "(int a) {" + nl + "sink ^= a;" + nl + "return a + sink; }\n";
        text += std::string("__attribute__((used, section(\"") + r.PickOf<std::string>({".init.text", ".init.text", ".exit.text", ".text.unlikely"}) + "\")))\nint start" + id + "(int a) {" + nl;
        for (int j = r.Below(12); j >= 0; j--) text += (r.Chance(1, 3) ? "a = in" + id + "(a);" : "sink += a * " + std::to_string(j) + ";") + nl;
        text += "return a; }\n";
      }
      std::string path = p.dir + "/" + s;
      WriteFile(path, ReadFile(path) + text);
    }
    cmd += " && clang -w " + p.flags + " -I. -c " + s + " -o " + o;
    objs += " " + o;
    k++;
  }
  WriteFile(p.dir + "/script", "SECTIONS { . = 0x400000; .text : { *(.text) } . = 0x800000; .rest : { *(.text.* .init.text .exit.text) } }\n");
  p.binary = p.dir + "/prog";
  std::string ko = p.dir + "/mod.ko";
  // The sections of a module come in any order.
  WriteFile(p.dir + "/first", "SECTIONS { .text.unlikely 0 : { *(.text.unlikely) } .init.text 0 : { *(.init.text) } }\n");
  if (r.Chance(1, 3)) objs += " -T first";
  if (r.Chance(1, 2)) objs += " --build-id";
  cmd += " && ld -r" + objs + " -o mod.ko && ld -T script -e 0 --unresolved-symbols=ignore-all mod.ko -o prog";
  if (Sh("(" + cmd + ") 2>" + p.dir + "/err") != 0) { ctx.Count("not_compiled"); if (getenv("VERIF_DEBUG")) fprintf(stderr, "%s\n", ReadFile(p.dir + "/err").c_str()); return; }
  CompareProgram(ctx, p, "clang " + p.flags + (others ? " module with .init.text" : " module"), false, ko, 0x400000);
}
