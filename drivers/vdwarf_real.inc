// Every address of a program: Addr2line against llvm-symbolizer.
// With a module, this is read instead, and has the code `shift` below the program's.
static void CompareProgram(Ctx &ctx, const RealProgram &p, const std::string &about, bool drop_dwo = false, const std::string &module = "", uint64_t shift = 0) {
  Rng &r = ctx.rng;
  std::vector<uint64_t> addrs;
  for (auto [a, b] : TextOf(p.binary, ctx.Tmp("ro"))) for (uint64_t x = a; x < b; x++) addrs.push_back(x);
  std::map<uint64_t, RStack> want;
  if (!Symbolize(p.binary, addrs, ctx.Tmp("sy"), &want)) { ctx.Count("no_symbolizer"); return; }
  if (drop_dwo) Sh("cd " + p.dir + " && rm -f *.dwo src/*.dwo");
  std::unique_ptr<afdo::Addr2line> a2l(afdo::Addr2line::Create(module.empty() ? p.binary : module));
  if (!ctx.Check(a2l != nullptr, "opens", [&] { return "cannot open a program built with " + about; })) return;
  uint64_t h = 0, inlined = 0, frames = 0, deep = 0, discs = 0;
  int bad = 0;
  const RStack *prev = nullptr;
  bool sequences_read = false;
  std::vector<std::pair<uint64_t, uint64_t>> sequences;  // of the line programs
  for (uint64_t a : addrs) {
    const RStack &w = want[a];
    bool edge = !prev || !(*prev == w) || !want.count(a + 1) || !(want[a + 1] == w);
    prev = &w;
    if (!edge && !r.Chance(1, 20)) continue;
    if (w.empty() || w[0].line == 0 || w.back().start_line == 0) continue;  // not code of the sources
    afdo::SourceStack got;
    a2l->GetInlineStack(a - shift, &got);
    RStack g;
    for (auto &i : got) {
      RFrame f;
      f.func = i.func_name ? i.func_name : "";
      f.path = NormalPath(i.dir_name, i.file_name);
      f.start_line = i.start_line;
      f.line = i.line;
      f.disc = i.discriminator;
      g.push_back(f);
    }
    RStack w2 = w;
    ctx.Count("addresses");
    frames += w.size();
    if (w.size() > 1) inlined++;
    if (w.size() > 2) deep++;
    if (w[0].disc) discs++;
    h = Mix(h, HashStr(ShowStack(w)));
    bool same = g.size() == w.size();
    std::string key = "frames";
    for (size_t i = 0; same && i < w.size(); i++) {
      if (!SamePath(g[i].path, w[i].path, p.dir)) { same = false; key = "file"; }
      else if (!SameFunction(g[i].func, w[i].func)) { same = false; key = "function"; }
      else if (w[i].start_line && g[i].start_line != w[i].start_line) { same = false; key = "start line"; }  // lambdas have none
      else if (g[i].line != w[i].line) { same = false; key = "line"; }
      else if (g[i].disc != w[i].disc) { same = false; key = "discriminator"; }
    }
    if (!same && !sequences_read) {
      sequences_read = true;
      Sh("llvm-dwarfdump --debug-line " + p.binary + " > " + ctx.Tmp("dl") + " 2>/dev/null");
      uint64_t lo = 0;
      bool in = false;
      std::istringstream in_lines(ReadFile(ctx.Tmp("dl")));
      for (std::string l; std::getline(in_lines, l);) {
        if (l.rfind("0x", 0) != 0) continue;
        uint64_t x = strtoull(l.c_str(), nullptr, 16);
        if (!in) lo = x;
        in = l.find("end_sequence") == std::string::npos;
        if (!in) sequences.push_back({lo, x});
      }
    }
    // The linker keeps one of several functions of the same size and name and
    // lets the descriptions of all of them point to it, whatever their code.
    if (!same && std::count_if(sequences.begin(), sequences.end(), [&](auto &q) { return q.first <= a && a < q.second; }) > 1) {
      ctx.Count("differences_in_ambiguous_code");
      continue;
    }
    if (!same && bad++ < 3)
      ctx.Fail("real " + key, about + ", address " + Hex(a) + ": the inline stack is" + ShowStack(g) + "\n  expected" + ShowStack(w));
  }
  ctx.Count(module.empty() ? "programs" : "modules");
  ctx.Count("inlined_addresses", inlined);
  ctx.Count("addresses_two_levels_deep", deep);
  ctx.Count("addresses_with_discriminator", discs);
  if (inlined) ctx.Nontrivial(h);
  ctx.Sample([&] { return about + ": " + std::to_string(addrs.size()) + " addresses, " + std::to_string(inlined) + " inside inlined code, " + std::to_string(frames) + " frames"; });
  if (!getenv("VERIF_DEBUG")) Sh("rm -rf " + p.dir);
}

// Every address of real compiled programs: Addr2line against llvm-symbolizer.
VPROP(C16_real) {
  Rng &r = ctx.rng;
  RealProgram p;
  p.dir = ctx.Tmp("real");
  Sh("rm -rf " + p.dir);
  bool c = r.Chance(1, 4);
  ProgGen gen(r);
  gen.nested = kCompilers.size() == 1;  // GCC only
  p.sources = gen.Write(p.dir, c);
  p.compiler = kCompilers[r.Below(kCompilers.size())];
  bool clang = p.compiler == "clang";
  p.flags = r.PickOf<std::string>({"-O1", "-O2", "-O2", "-O3", "-Os"}) + " -gdwarf-" + std::to_string(r.In(2, 5));
  if (r.Chance(1, 4)) p.flags += " -ffunction-sections";
  if (r.Chance(1, 3)) p.flags += r.PickOf<std::string>({" -no-pie -fno-pie", " -fPIE -pie"});
  if (!clang && r.Chance(1, 5)) p.flags += " -gno-as-loc-support";
  if (r.Chance(1, 6)) p.flags += " -fdebug-types-section";
  if (r.Chance(1, 8)) p.flags += " -g3";
  if (!clang && r.Chance(1, 8)) p.flags += " -flto";
  if (!clang && p.flags.find("-gdwarf-2") == std::string::npos && r.Chance(1, 8)) p.flags += " -gstrict-dwarf";  // no ranges in DWARF 2
  if (clang) p.flags += " -fdebug-info-for-profiling";
  // GCC's .dwo files may hold several sections of debug information for type
  // units; LLVM does not read split DWARF of versions 2 and 3.
  bool split = false;
  if (!clang && p.flags.find("-flto") == std::string::npos && p.flags.find("-fdebug-types") == std::string::npos && p.flags.find("-gdwarf-2") == std::string::npos &&
      p.flags.find("-gdwarf-3") == std::string::npos && r.Chance(1, 2)) {
    split = true;
    p.flags += " -gsplit-dwarf";
  }
  bool separate = r.Chance(1, 2);
  std::string cc = p.compiler + (c ? "" : "++");
  if (p.compiler == "gcc") cc = c ? "gcc" : "g++";
  std::string cmd = "cd " + p.dir + " && ";
  std::string srcs, objs;
  for (auto &s : p.sources) {
    bool abs = r.Chance(1, 4);
    srcs += " " + (abs ? p.dir + "/" : "") + s;
    if (separate) {
      std::string o = std::filesystem::path(s).stem().string() + ".o";
      cmd += cc + " -w " + p.flags + " -I. -c " + (abs ? p.dir + "/" : "") + s + " -o " + o + " && ";
      objs += " " + o;
    }
  }
  cmd += cc + " -w " + p.flags + " -I." + (separate ? objs : srcs) + " -o prog 2>" + p.dir + "/err";
  p.binary = p.dir + "/prog";
  if (Sh(cmd) != 0) { ctx.Count("not_compiled"); if (getenv("VERIF_DEBUG")) { fprintf(stderr, "%s\n%s\n", cmd.c_str(), ReadFile(p.dir + "/err").c_str()); } return; }
  bool drop = false;
  // Packages: binutils' dwp makes those of DWARF 4 only.
  if (split && p.flags.find("-gdwarf-4") != std::string::npos && r.Chance(1, 2)) {
    if (Sh("cd " + p.dir + " && timeout 20 dwp -e prog -o prog.dwp 2>>err >&2") == 0) {
      drop = r.Chance(3, 4);
      ctx.Count("packages");
    }
  }
  if (split) ctx.Count("programs_with_split_dwarf");
  CompareProgram(ctx, p, p.compiler + " " + p.flags, drop);
}
