// Every interesting address of synthetic debug information: Addr2line against the model.
VPROP(C16_synthetic) {
  Rng &r = ctx.rng;
  DwarfGen g(r);
  g.lo = r.Chance(1, 2) ? 0x401000 + r.Below(0x1000) : 0x2000 + r.Below(0x1000);
  g.discarded = r.Chance(1, 3);
  g.min_version = kMinVersion;
  g.line_only = kNoLineZero && r.Chance(1, 16);
  if (g.line_only) g.max_version = 4;
  g.sdata = g.overlaps = kSdata;
  std::string path = ctx.Tmp("synth");
  WriteFile(path, g.Generate());
  std::unique_ptr<afdo::Addr2line> a2l(afdo::Addr2line::Create(path));
  if (!ctx.Check(a2l != nullptr, "opens", [&] { return "cannot open"; })) return;
  uint64_t h = 0, inlined = 0;
  int bad = 0;
  for (uint64_t a : g.points) {
    if (a < g.lo || a >= g.hi + 8) continue;
    RStack w = g.Want(a);
    bool outside = w.empty();
    if (g.line_only && !w.empty()) {
      w.resize(1);
      w[0].func.clear();
      w[0].start_line = 0;
    }
    if (kNoLineZero && !w.empty() && w[0].line == 0) w.clear();
    if (outside && !kOutsideEmpty) continue;
    afdo::SourceStack got;
    a2l->GetInlineStack(a, &got);
    RStack s;
    for (auto &i : got) {
      RFrame f;
      f.func = i.func_name ? i.func_name : "";
      f.path = NormalPath(i.dir_name, i.file_name);
      f.start_line = i.start_line;
      f.line = i.line;
      f.disc = i.discriminator;
      s.push_back(f);
    }
    ctx.Count("addresses");
    if (w.size() > 1) inlined++;
    h = Mix(h, HashStr(ShowStack(w)));
    // Between functions a line table may go on; there is no function there.
    if (outside && s.size() == 1 && s[0].func.empty()) continue;
    bool same = s.size() == w.size();
    std::string key = "frames";
    for (size_t i = 0; same && i < w.size(); i++) {
      std::string comp;
      for (auto &c : g.cus) if (w[i].path.compare(0, c.comp.size(), c.comp) == 0 && c.comp.size() > comp.size()) comp = c.comp;
      bool path = s[i].path == w[i].path;
      for (auto &c : g.cus) path = path || ((!kAbsolute || g.line_only) && NormalPath(c.comp, s[i].path) == w[i].path);
      if (!path) { same = false; key = "file"; }
      else if (s[i].func != w[i].func) { same = false; key = "function"; }
      else if (s[i].start_line != w[i].start_line) { same = false; key = "start line"; }
      else if (s[i].line != w[i].line) { same = false; key = "line"; }
      else if (s[i].disc != w[i].disc) { same = false; key = "discriminator"; }
    }
    if (!same && bad++ < 3)
      ctx.Fail("synthetic " + key, "units" + g.about + ", address " + Hex(a) + ": the inline stack is" + ShowStack(s) + "\n  expected" + ShowStack(w));
  }
  if (g.line_only) ctx.Count("line_tables_alone");
  ctx.Count("inlined_addresses", inlined);
  if (inlined) ctx.Nontrivial(h);
  ctx.Sample([&] { return "units" + g.about + ": " + std::to_string(g.points.size()) + " addresses, " + std::to_string(inlined) + " inlined"; });
  if (!getenv("VERIF_DEBUG")) unlink(path.c_str());
}
