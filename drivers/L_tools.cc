// link: core
// C38: the AutoFDO tools as a whole: create_llvm_prof, create_gcov,
// sample_merger, profile_merger, dump_gcov and profile_diff.
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
#include "vattrib.h"
#include "vllvmprof.h"
#include "vperf.h"
#include "vreal.h"
#include "vtool.h"
ABSL_DECLARE_FLAG(uint64_t, gcov_version);
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using namespace vh;

namespace {
std::string ReadGcov(Ctx &ctx, const std::string &path, MProf *out) {
  ChildResult c = RunChild(ctx, [&]() -> std::string {
    afdo::SymbolMap m;
    afdo::AutoFDOProfileReader rd(&m, true);
    rd.ReadFromFile(path);
    return "ok";
  });
  if (!c.exited0()) return c.err.substr(0, 600);
  afdo::SymbolMap m;
  afdo::AutoFDOProfileReader rd(&m, true);  // owns the names
  rd.ReadFromFile(path);
  MProf p = FromMap(m);
  for (auto &[n, s] : p) { bool any; (*out)[n] = Prune(s, &any); }
  return "";
}
// The gcov format holds no totals.
uint64_t Retotal(MSym &s) {
  s.total = 0;
  for (auto &[k, p] : s.pos) s.total += p.count;
  for (auto &[k, c] : s.calls) s.total += Retotal(c);
  return s.total;
}
void NamesIn(const MSym &s, std::set<std::string> *out) {
  for (auto &[k, p] : s.pos) for (auto &[t, c] : p.targets) out->insert(t);
  for (auto &[k, c] : s.calls) { out->insert(k.second); NamesIn(c, out); }
}
bool CloneName(const std::string &n) {
  for (size_t i = 0; i + 2 < n.size(); i++)
    if ((n[i] == 'C' || n[i] == 'D') && isdigit(n[i + 1]) && n[i + 2] == 'E') return true;
  return false;
}

struct Real {
  RealProgram p;
  RElf elf;
  std::string about;
  bool gcc = false;
  std::vector<Fn> fns;
  std::map<uint64_t, afdo::SourceStack> stacks;
  std::vector<int> good;  // functions with full debug information
};
bool Compile(Ctx &ctx, Real *x) {
  Rng &r = ctx.rng;
  RealProgram &p = x->p;
  p.dir = ctx.Tmp("real");
  Sh("rm -rf " + p.dir);
  bool c = r.Chance(1, 4);
  ProgGen gen(r);
  p.sources = gen.Write(p.dir, c);
  x->gcc = r.Chance(2, 3);
  p.flags = r.PickOf<std::string>({"-O1", "-O2", "-O2", "-O3", "-Os"}) + " -gdwarf-" + (x->gcc ? r.PickOf<std::string>({"4", "5"}) : "4");
  if (r.Chance(1, 4)) p.flags += " -ffunction-sections";
  if (r.Chance(1, 3)) p.flags += r.PickOf<std::string>({" -no-pie -fno-pie", " -fPIE -pie"});
  if (r.Chance(1, 3)) p.flags += r.PickOf<std::string>({" -Wl,--build-id=none", " -Wl,--build-id=md5", " -Wl,--build-id=0x0123456789abcdef"});
  if (!x->gcc) p.flags += " -fdebug-info-for-profiling";
  std::string cc = x->gcc ? (c ? "gcc" : "g++") : (c ? "clang" : "clang++");
  std::string srcs;
  for (auto &s : p.sources) srcs += " " + s;
  std::string name = r.PickOf<std::string>({"prog", "my+prog", "p.r(o)g", "prog.unstripped"});
  p.binary = p.dir + "/" + name;
  std::string cmd = "cd " + p.dir + " && " + cc + " -w " + p.flags + " -I." + srcs + " -o prog_ 2>err";
  if (Sh(cmd) != 0) { ctx.Count("not_compiled"); return false; }
  std::string plain = p.dir + "/prog_";
  if (!ParseElf(plain, &x->elf)) return false;
  std::map<uint64_t, std::pair<size_t, uint64_t>> at;
  std::map<std::string, int> times;
  for (auto &s : x->elf.syms) {
    if (s.type != STT_FUNC || !s.size) continue;
    auto it = at.find(s.addr);
    if (it == at.end()) { at[s.addr] = {x->fns.size(), s.size}; x->fns.push_back({s.name, s.addr, s.size, {}}); times[s.name]++; }
    else { x->fns[it->second.first].aliases.push_back(s.name); times[s.name]++; }
  }
  auto text = TextOf(plain, ctx.Tmp("ro"));
  std::vector<uint64_t> addrs;
  for (auto [a, b] : text) for (uint64_t y = a; y < b; y++) addrs.push_back(y);
  std::map<uint64_t, RStack> want;
  if (!Symbolize(plain, addrs, ctx.Tmp("sy"), &want)) { ctx.Count("no_symbolizer"); return false; }
  for (auto &[a, st] : want) {
    if (st.empty() || st[0].line == 0 || st.back().start_line == 0) continue;
    afdo::SourceStack &s = x->stacks[a];
    for (auto &f : st) s.push_back(afdo::SourceInfo(Intern(f.func), "", Intern(f.path), f.start_line, f.line, f.disc));
  }
  for (size_t i = 0; i < x->fns.size(); i++) {
    auto &f = x->fns[i];
    bool ok = times[f.name] == 1;
    for (auto &n : f.aliases) ok &= times[n] == 1;
    for (uint64_t a = f.addr; ok && a < f.addr + f.size; a++) {
      auto it = x->stacks.find(a);
      if (it == x->stacks.end()) { ok = false; break; }
      for (auto &s : it->second) if (!s.start_line || !s.line || CloneName(s.func_name)) ok = false;
    }
    for (size_t k = 0; ok && k < x->fns.size(); k++) if (k != i && x->fns[k].addr < f.addr + f.size && x->fns[k].addr + x->fns[k].size > f.addr) ok = false;
    if (ok) x->good.push_back(i);
  }
  // What else an elided name stands for is to be as unambiguous.
  std::map<std::string, bool> group_ok;
  for (size_t i = 0; i < x->fns.size(); i++) {
    bool g = std::find(x->good.begin(), x->good.end(), static_cast<int>(i)) != x->good.end();
    for (auto pol : {"all", "selected"}) {
      std::vector<std::string> names = x->fns[i].aliases;
      names.push_back(x->fns[i].name);
      for (auto &n : names) { auto [it, fresh] = group_ok.insert({CanonName(pol, n), g}); if (!g) it->second = false; }
    }
  }
  std::vector<int> keep;
  for (int i : x->good) {
    bool ok = true;
    std::vector<std::string> names = x->fns[i].aliases;
    names.push_back(x->fns[i].name);
    for (auto pol : {"all", "selected"}) for (auto &n : names) ok &= group_ok[CanonName(pol, n)];
    if (ok) keep.push_back(i);
  }
  x->good = keep;
  x->about = cc + " " + p.flags;
  rename(plain.c_str(), p.binary.c_str());
  if (x->good.empty()) { ctx.Count("no_suitable_function"); return false; }
  return true;
}

struct Samples {
  std::vector<std::string> files;  // perf data
  std::map<uint64_t, uint64_t> addrs;
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> ranges, branches;
};
// Runs of the program: branches within its functions, calls to others, and now and then to another binary.
Samples Record(Ctx &ctx, const Real &x) {
  Rng &r = ctx.rng;
  Samples s;
  std::vector<int> hot;
  for (int i = 0, n = 1 + r.Below(6); i < n; i++) hot.push_back(r.Pick(x.good));
  std::string base = x.p.binary.substr(x.p.binary.rfind('/') + 1);
  if (base == "prog.unstripped") base = "prog";
  std::string name = x.elf.build_id.empty() ? r.PickOf<std::string>({"/usr/bin/", "/opt/a b/", "/"}) + base : r.PickOf<std::string>({"/usr/bin/other", "/proc/self/exe", x.p.binary});
  std::string other = r.PickOf<std::string>({"/lib/libc.so.6", "/usr/bin/x" + base, "/usr/bin/" + base + "x"});
  uint64_t page_off = x.elf.off & ~0xfffull, len = ((x.elf.off & 0xfff) + x.elf.memsz + 0xfff) & ~0xfffull;
  int nf = 1 + r.Below(3);
  std::string id = x.elf.build_id;
  if (!id.empty() && id.size() < 40) id.resize(40, '0');
  for (int fi = 0; fi < nf; fi++) {
    PerfData d;
    if (!id.empty()) d.BuildId(name, id);
    if (r.Chance(1, 2)) d.BuildId(other, RandHex(r, 40));
    int np = 1 + r.Below(2);
    std::vector<uint64_t> bias;
    for (int i = 0; i < np; i++) {
      uint64_t start = x.elf.pie ? 0x555555554000ull + (r.Below(256) << 16) : x.elf.vaddr & ~0xfffull;
      bias.push_back(start - (x.elf.vaddr & ~0xfffull));
      d.Mmap(100 + i, start, len, page_off, name);
      d.Mmap(100 + i, 0x7ff000000000ull, 0x10000, 0, other);
    }
    for (int k = 0, n = r.Below(40); k < n; k++) {
      int pi = r.Below(np);
      const Fn *f = &x.fns[r.Pick(hot)];
      uint64_t pc = r.Chance(1, 2) ? f->addr : f->addr + r.Below(f->size);
      std::vector<std::pair<uint64_t, uint64_t>> st;  // oldest first, 0: another binary
      for (int i = 0, m = 1 + r.Below(r.Chance(1, 4) ? 16 : 5); i < m; i++) {
        uint64_t from = pc + r.Below(std::min<uint64_t>(f->addr + f->size - pc, r.Chance(1, 4) ? 1000 : 40)), to = 0;
        switch (r.Below(8)) {
          case 0: break;
          case 1: case 2: f = &x.fns[r.Pick(hot)]; to = f->addr; break;
          case 3: f = &x.fns[r.Pick(hot)]; to = f->addr + r.Below(f->size); break;
          default: to = f->addr + r.Below(f->size); break;
        }
        st.push_back({from, to});
        if (!to) {
          f = &x.fns[r.Pick(hot)];
          to = r.Chance(1, 2) ? f->addr : f->addr + r.Below(f->size);
          st.push_back({0, to});
        }
        pc = to;
      }
      auto rt = [&](uint64_t a) { return a ? a + bias[pi] : 0x7ff000000100ull + r.Below(0x1000); };
      std::vector<std::pair<uint64_t, uint64_t>> lbr;
      for (size_t i = st.size(); i--;) {
        lbr.push_back({rt(st[i].first), rt(st[i].second)});
        if (st[i].first && st[i].second) s.branches[st[i]]++;
        if (i + 1 < st.size() && st[i].second) s.ranges[{st[i].second, st[i + 1].first}]++;
      }
      d.Sample(100 + pi, rt(pc), lbr);
      if (pc) s.addrs[pc]++;
    }
    s.files.push_back(ctx.Tmp("perf" + std::to_string(fi)));
    WriteFile(s.files.back(), d.Str());
  }
  return s;
}
std::string Join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += " " + x; return s; }
std::string Tail(const std::string &s, size_t n = 700) { return s.size() > n ? s.substr(s.size() - n) : s; }
}  // namespace

VPROP(C38_convert) {
  Rng &r = ctx.rng;
  Real x;
  if (!Compile(ctx, &x)) { Sh("rm -rf " + x.p.dir); return; }
  auto runs = [&](const std::string &tool, const std::vector<std::string> &args) {
    std::string err;
    int st = RunTool(ctx, Tool(tool), args, &err);
    ctx.Check(!Sanitizer(err), "undefined behaviour in a tool", [&] { return tool + Join(args) + ": " + err.substr(0, 3000); });
    return ctx.Check(st == 0, tool + " fails", [&] { return "exit status " + std::to_string(st) + " from" + Join(args) + ": " + Tail(err); });
  };
  uint64_t off = x.elf.vaddr - x.elf.off;
  for (int round = 0; round < 4; round++) {
    Samples s = Record(ctx, x);
    Attrib at;
    at.fns = x.fns;
    at.stack = [&](uint64_t a) -> const afdo::SourceStack * { auto it = x.stacks.find(a); return it == x.stacks.end() ? nullptr : &it->second; };
    at.addrs = s.addrs;
    at.ranges = s.ranges;
    at.branches = s.branches;
    bool gcov = x.gcc && r.Chance(1, 2);
    std::vector<std::string> args = {"--binary=" + x.p.binary};
    auto maybe = [&] { return r.Chance(1, 4); };
    if (maybe()) { at.lbr = false; args.push_back("--nouse_lbr"); }
    if (maybe()) { at.policy = r.PickOf<std::string>({"all", "none", "selected"}); args.push_back("--suffix_elision_policy=" + at.policy); }
    if (maybe()) { at.frac = r.PickOf<double>({0.01, 0.1, 0.3, 0.6}); args.push_back("--sample_threshold_frac=" + std::to_string(at.frac)); }
    if (maybe()) { at.multiply = r.Chance(1, 2); args.push_back(std::string("--use_discriminator_multiply_factor=") + (at.multiply ? "true" : "false")); }
    if (r.Chance(1, 6)) args.push_back("--debug_dump");  // only prints
    at.enc = !gcov;
    if (gcov) at.multiply = false;  // GCC's discriminators hold no factor
    at.narrow = true;
    at.Compute();
    MProf want = Expected(at.want, at.thr), got;
    // One file as it is, several through sample_merger.
    std::string in = s.files[0];
    bool text = s.files.size() > 1 || r.Chance(1, 4);
    std::string out = ctx.Tmp("out.prof"), txt = ctx.Tmp("samples.txt");
    unlink(out.c_str());
    unlink(txt.c_str());
    bool ok = true;
    if (text) {
      // All at once, or one after the other into the same file.
      in = txt;
      auto merge = [&](size_t a, size_t b) {
        std::vector<std::string> v = {"--binary=" + x.p.binary, "--output_file=" + txt, "--profiler=perf"};
        std::string l;
        for (size_t i = a; i < b; i++) l += (i > a ? "," : "") + s.files[i];
        v.push_back(b - a == 1 && r.Chance(1, 2) ? "--profile=" + l : "--profiles=" + l + (r.Chance(1, 4) ? "," : ""));
        r.Shuffle(v);
        return runs("L_tool_sample_merger", v);
      };
      size_t cut = r.Below(s.files.size() + 1);
      if (cut) ok &= merge(0, cut);
      if (cut < s.files.size()) ok &= merge(cut, s.files.size());
    }
    args.push_back("--profile=" + in);
    if (text) args.push_back("--profiler=text");
    else if (r.Chance(1, 2)) args.push_back("--profiler=perf");
    std::string tool = gcov ? "G_tool_create_gcov" : "L_tool_create_llvm_prof", fmt, err;
    int version = 0;
    if (gcov) {
      args.push_back("--gcov=" + out);
      fmt = "gcov";
      if (r.Chance(3, 4)) { version = 1 + r.Below(3); args.push_back("--gcov_version=" + std::to_string(version)); fmt += std::to_string(version); }
    } else {
      args.push_back((r.Chance(1, 2) ? "--out=" : "--gcov=") + out);
      fmt = r.PickOf<std::string>({"text", "binary", "extbinary", "extbinary"});
      if (fmt != "text" || r.Chance(1, 2)) args.push_back("--format=" + fmt);
    }
    bool list = fmt == "extbinary" && r.Chance(1, 2);
    if (list) { args.push_back("--prof_sym_list"); args.push_back("--symbol_list_size_coverage_ratio=1"); if (r.Chance(1, 2)) args.push_back("--compress_symbol_list"); }
    r.Shuffle(args);
    ok = ok && runs(tool, args);
    std::set<std::string> syms;
    if (ok) {
      absl::SetFlag(&FLAGS_suffix_elision_policy, at.policy);  // the reader elides too
      std::string e = gcov ? ReadGcov(ctx, out, &got) : "";
      if (!gcov && !ReadDirect(out, &got, &err, nullptr, &syms)) e = err;
      if (!e.empty() && (gcov || !want.empty())) { ctx.Fail("tool output unreadable", fmt + ": " + e); ok = false; }
    }
    if (gcov) for (auto &[n, y] : want) Retotal(y);
    if (ok) {
      at.Settle(&want, &got);
      DiffOpt o;
      o.num_inst = false;
      std::string d = DiffProf(want, got, o);
      ctx.Check(d.empty(), "profile of " + tool.substr(7), [&] { return d + "\n" + x.about + "\n" + tool + Join(args) + "\nwant " + ShowProf(want) + "\ngot " + ShowProf(got); });
      ctx.Count("profiles_" + fmt);
      ctx.Count("functions", want.size());
      ctx.Count("addresses_attributed", at.attributed);
      if (list && !want.empty()) {
        // Every function but those the profile names.
        std::set<std::string> named;
        for (auto &[n, y] : at.want) { named.insert(n); NamesIn(y, &named); }
        for (auto &f : x.fns) {
          std::string n = CanonName(at.policy, f.name);
          if (!named.count(n) && !named.count(f.name)) ctx.Check(syms.count(n), "symbol list lacks a function", [&] { return n + " of " + x.about + "; " + Join(args); });
        }
        for (auto &n : syms) ctx.Check(!at.want.count(n), "symbol list names a function of the profile", [&] { return n + " of " + x.about + "; " + ShowProf(at.want); });
        ctx.Count("symbol_lists");
      }
      if (!want.empty()) ctx.Nontrivial(Mix(HashProf(want), HashStr(fmt)));
      ctx.Sample([&] { return x.about + " | " + tool + Join(args) + " | " + ShowProf(want); });
    }
    for (auto &f : s.files) unlink(f.c_str());
  }
  ctx.Count("programs");
  if (!getenv("VERIF_DEBUG")) Sh("rm -rf " + x.p.dir);
}

namespace {
std::vector<std::string> PlainNames(Rng &r) {
  std::vector<std::string> v = {"main", "foo", "bar", "_Z3bazv", "operator_new", "x", "fn$1", "_ZN1AD2Ev", "foobar", "barn", "afoo"};
  for (int i = 0, n = r.Below(6); i < n; i++) {
    std::string s = "_Z";
    for (int j = 0, l = r.In(1, 30); j < l; j++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"[r.Below(64)];
    v.push_back(s);
  }
  return v;
}
std::vector<MProf> SomeProfiles(Rng &r, int n, GenOpt *o, bool special) {
  o->count_bits = r.PickOf<int>({4, 12, 32, 44});
  o->max_funcs = r.PickOf<int>({1, 4, 12});
  o->max_depth = r.In(0, 4);
  if (r.Chance(1, 8)) { o->max_depth = r.In(5, 8); o->max_funcs = 2; }
  o->names = PlainNames(r);
  if (special) { o->names.push_back("__cxx_global_var_init.3"); o->names.push_back("_GLOBAL__sub_I_a.cc"); }
  std::vector<MProf> v;
  for (int i = 0; i < n; i++) {
    MProf p = GenProf(r, *o);
    if (i && r.Chance(2, 3)) for (auto &[k, s] : v[r.Below(i)]) if (r.Chance(1, 2)) p[k] = s;
    for (auto it = p.begin(); it != p.end();) it = it->second.total == 0 ? p.erase(it) : std::next(it);
    if (p.empty()) { MSym s; s.pos[0].count = s.total = 70; s.pos[0].num_inst = 1; p["main"] = s; }
    v.push_back(p);
  }
  return v;
}
MSym Md5(const MSym &s) {
  auto h = [](const std::string &n) { return std::to_string(llvm::MD5Hash(n)); };
  MSym o;
  o.total = s.total;
  o.head = s.head;
  for (auto &[k, p] : s.pos) { MPos &q = o.pos[k]; q.count = p.count; q.num_inst = p.num_inst; for (auto &[t, c] : p.targets) q.targets[h(t)] += c; }
  for (auto &[k, c] : s.calls) o.calls[{k.first, h(k.second)}] = Md5(c);
  return o;
}
// What dump_gcov is to print.
void Render(const std::string &name, const MSym &s, int indent, bool top, std::string *o) {
  *o += name + ": total:" + std::to_string(s.total) + (top ? " head:" + std::to_string(s.head) + " timestamp: 0" : "") + "\n";
  auto at = [&](uint64_t off) {
    *o += std::string(indent + 2, ' ') + std::to_string(off >> 32);
    if (off & 0xffffffff) *o += "." + std::to_string(off & 0xffffffff);
    *o += ": ";
  };
  for (auto &[off, p] : s.pos) {
    at(off);
    *o += std::to_string(p.count);
    std::vector<std::pair<uint64_t, std::string>> t;
    for (auto &[n, c] : p.targets) t.push_back({c, n});
    std::sort(t.rbegin(), t.rend());
    for (auto &[c, n] : t) *o += "  " + n + "::" + std::to_string(c);
    *o += "\n";
  }
  for (auto &[k, c] : s.calls) { at(k.first); Render(k.second, c, indent + 2, false, o); }
}
// A small program with debug information and samples of it.
bool Tiny(Ctx &ctx, std::string *bin, std::string *txt) {
  std::string src = ctx.Tmp("tiny.c");
  *bin = ctx.Tmp("tiny");
  *txt = ctx.Tmp("tiny.txt");
  WriteFile(src, "int f(int a) {\n  return a * 3;\n}\nint main(int c, char **v) {\n  return f(c);\n}\n");
  if (Sh("gcc -g -O1 -fno-inline " + src + " -o " + *bin + " 2>/dev/null") != 0) return false;
  unlink(src.c_str());
  RElf e;
  if (!ParseElf(*bin, &e)) return false;
  std::string t;
  for (auto &s : e.syms) if (s.name == "f") {
    uint64_t o = s.addr - e.vaddr + e.off;
    t = "1\n" + Hex(o).substr(2) + "-" + Hex(o + 2).substr(2) + ":100\n0\n0\n";
  }
  return WriteFile(*txt, t);
}
}  // namespace

VPROP(C38_combine) {
  Rng &r = ctx.rng;
  std::string err, out = ctx.Tmp("out.prof");
  unlink(out.c_str());
  auto run = [&](const std::string &tool, const std::vector<std::string> &args, std::string *o = nullptr) {
    int st = RunTool(ctx, Tool(tool), args, &err, o);
    ctx.Check(!Sanitizer(err), "undefined behaviour in a tool", [&] { return tool + Join(args) + ": " + err.substr(0, 3000); });
    ctx.Count("tool_runs");
    return st;
  };
  auto ok = [&](int st, const std::string &tool, const std::vector<std::string> &args) {
    return ctx.Check(st == 0, tool + " fails", [&] { return "exit status " + std::to_string(st) + " from" + Join(args) + ": " + Tail(err); });
  };
  std::vector<std::string> files;
  int what = r.Below(10);
  if (what < 4) {  // profile_merger --is_llvm
    int n = r.Chance(1, 6) ? r.In(5, 14) : r.In(1, 4);
    GenOpt o;
    const bool some_fs = r.Chance(1, 4);
    bool fs_in = false, fs_flag = false;
    bool special = r.Chance(1, 3), keep = r.Chance(1, 2);
    auto profs = SomeProfiles(r, n, &o, special);
    std::set<std::string> lists, syms;
    MProf want;
    for (int i = 0; i < n; i++) {
      afdo::SymbolMap m;
      Populate(m, profs[i]);
      auto fmt = r.PickOf<lsp::SampleProfileFormat>({lsp::SPF_Text, lsp::SPF_Binary, lsp::SPF_Ext_Binary});
      files.push_back(ctx.Tmp("in" + std::to_string(i)));
      afdo::LLVMProfileWriter w(fmt);
      auto *sw = w.CreateSampleWriter(files.back());
      lsp::ProfileSymbolList l;
      if (fmt == lsp::SPF_Ext_Binary && r.Chance(2, 3)) {
        for (int k = 0, c = r.Below(4); k < c; k++) { std::string s = "_Zcold" + std::to_string(r.Below(8)); l.add(s, true); lists.insert(s); }
        if (l.size()) sw->setProfileSymbolList(&l);
      }
      w.setSymbolMap(&m);
      m.set_count_threshold(0);
      afdo::SourceInfo::use_fs_discriminator = some_fs && r.Chance(1, 2);
      // Only this format says so.
      fs_in |= afdo::SourceInfo::use_fs_discriminator && fmt == lsp::SPF_Ext_Binary;
      const bool wrote = w.WriteToFile(files.back());
      afdo::SourceInfo::use_fs_discriminator = false;
      if (!ctx.Check(wrote, "write", [&] { return ""; })) return;
      for (auto &[k, s] : Expected(profs[i], 0)) {
        if (!keep && (k.rfind("__cxx_global_var_init", 0) == 0 || k.rfind("_GLOBAL__sub_I_", 0) == 0)) { MSym c; c.total = afdo::kMinSamples + 1; want[k] = c; }
        else MergeSym(want[k], s);
      }
    }
    uint64_t total = 0;
    for (auto &[k, s] : want) total += s.total;
    double frac = 0;
    std::vector<std::string> args = {"--is_llvm", "--output_file=" + out};
    std::string fmt = r.PickOf<std::string>({"text", "binary", "extbinary", "extbinary", "extbinary"});
    if (fmt != "binary" || r.Chance(1, 2)) args.push_back("--format=" + fmt);
    bool md5 = false, list = false, compress = false, partial = false, split = false, bad = false, ext = fmt == "extbinary";
    auto maybe = [&] { return r.Chance(1, 4); };
    if (!keep) args.push_back("--nomerge_special_syms");
    if (r.Chance(1, 3)) { list = true; args.push_back("--include_symbol_list"); }
    if (r.Chance(1, ext ? 4 : 12)) { args.push_back("--compress"); bad |= !ext; compress = true; }
    if (r.Chance(1, ext ? 4 : 12)) { args.push_back("--use_md5"); bad |= !ext; md5 = true; }
    if (r.Chance(1, ext ? 4 : 12)) { args.push_back("--partial_profile"); bad |= !ext; partial = true; }
    if (r.Chance(1, ext ? 4 : 12)) { args.push_back("--split_layout"); bad |= !ext; split = true; }
    if (r.Chance(1, 12)) { args.push_back("--use_fs_discriminator"); fs_flag = true; }
    if (maybe()) { frac = r.PickOf<double>({0.01, 0.1, 0.4}); args.push_back("--sample_threshold_frac=" + std::to_string(frac)); }
    // What these do is for C12 and C13; here, that they are done, in this order.
    {
      afdo::SymbolMap m;
      Populate(m, want);
      for (auto &[k, s] : want) if (s.pos.empty() && s.calls.empty()) m.AddSymbolEntryCount(k, 0, s.total);
      int level = maybe() ? r.In(1, 2) : 0, cut = maybe() ? r.In(1, 3) : -1, targets = maybe() ? r.In(1, 2) : 0;
      std::string re = maybe() ? r.PickOf<std::string>({"foo", "_Z.*", ".*a.*", "main|bar", "nothing"}) : "";
      if (level) args.push_back("--max_inline_callsite_nesting_level=" + std::to_string(level));
      if (cut > 0) args.push_back("--inline_instances_at_same_loc_cutoff=" + std::to_string(cut));
      if (targets) args.push_back("--max_call_targets=" + std::to_string(targets));
      if (!re.empty()) args.push_back("--strip_symbols_regex=" + re);
      if (level) m.FlattenNestedInlineCallsites(level);
      if (!re.empty()) m.RemoveSymsMatchingRegex(re);
      if (cut > 0) m.throttleInlineInstancesAtSameLocation(cut);
      if (targets) m.TrimCallTargets(targets);
      want = FromMap(m);
    }
    want = Expected(want, std::max<uint64_t>(10, static_cast<uint64_t>(total * frac)));
    if (md5) { MProf h; for (auto &[k, s] : want) h[std::to_string(llvm::MD5Hash(k))] = Md5(s); want = h; }
    for (auto &f : files) args.push_back(f);
    auto show = [&] { return Join(args) + ": " + Tail(err); };
    int st = run("L_tool_profile_merger", args);
    // The list is lost, with a warning, and nothing else is looked at.
    if (bad) {
      ctx.Check(st != 0, "profile_merger ignores that options exclude each other", show);
      ctx.Count("rejected");
    } else if (ok(st, "profile_merger", args)) {
      MProf got;
      std::string e;
      bool fs = false;
      std::string sections;
      bool rd = ReadDirect(out, &got, &e, &fs, &syms, &sections);
      if (rd && ext && !want.empty()) {
        // One line for each section: name, offset, size and flags.
        bool all = true;
        int samples = 0;
        for (std::string_view line : absl::StrSplit(sections, '\n')) {
          if (line.find(" - Offset: ") == std::string::npos) continue;
          if (line.find("Size: 0,") == std::string::npos && line.find("compressed") == std::string::npos) all = false;
          if (line.find("LBRProfile") == 0) samples++;
        }
        bool is_partial = sections.find("partial") != std::string::npos;
        auto said = [&] { return "\n" + sections + show(); };
        ctx.Check(samples > 0, "sections of the merged profile", said);
        ctx.Check(all == compress, "compression of the merged profile", said);
        ctx.Check(is_partial == partial, "partial flag of the merged profile", said);
        ctx.Check((samples > 1) == split, "layout of the merged profile", said);
        ctx.Check(fs == (fs_in || fs_flag), "FS discriminators of the merged profile", said);
        ctx.Count("section_tables");
      }
      if (rd || !want.empty()) {
        if (ctx.Check(rd, "tool output unreadable", [&] { return e + show(); })) {
          DiffOpt d;
          d.num_inst = false;
          std::string x = DiffProf(want, got, d);
          ctx.Check(x.empty(), "merged profile", [&] { return x + show(); });
          if (ext) ctx.Check(syms == (list ? lists : std::set<std::string>{}), "merged symbol lists", [&] { return std::to_string(syms.size()) + " names instead of " + std::to_string(list ? lists.size() : 0) + show(); });
        }
      }
      if (!want.empty()) ctx.Nontrivial(Mix(HashProf(want), HashStr(fmt)));
      ctx.Count("llvm_merges");
      ctx.Sample([&] { return Join(args) + " -> " + ShowProf(want); });
    }
  } else if (what < 6) {  // the gcov profile_merger and dump_gcov
    int n = r.In(1, 4), version = r.In(1, 3);
    GenOpt o;
    auto profs = SomeProfiles(r, n, &o, false);
    MProf want;
    absl::SetFlag(&FLAGS_gcov_version, version);
    for (int i = 0; i < n; i++) {
      afdo::SymbolMap m;
      Populate(m, profs[i]);
      m.set_count_threshold(0);
      files.push_back(ctx.Tmp("in" + std::to_string(i)));
      afdo::AutoFDOProfileWriter w(&m, version);
      if (!ctx.Check(w.WriteToFile(files.back()), "write", [&] { return ""; })) return;
      for (auto &[k, s] : Expected(profs[i], 0)) {
        MSym x = s;
        Retotal(x);
        MergeSym(want[k], x);
      }
    }
    std::vector<std::string> args = {"--output_file=" + out, "--gcov_version=" + std::to_string(version)};
    for (auto &f : files) args.push_back(f);
    want = Expected(want, 10);
    if (ok(run("G_tool_profile_merger", args), "profile_merger", args)) {
      MProf got;
      std::string e = ReadGcov(ctx, out, &got);
      ctx.Check(e.empty(), "tool output unreadable", [&] { return e; });
      DiffOpt d;
      d.num_inst = false;
      std::string x = DiffProf(want, got, d);
      ctx.Check(x.empty(), "merged profile", [&] { return x + Join(args); });
      std::string text, exp;
      std::vector<std::string> gargs = {out};
      if (r.Chance(1, 4)) gargs.insert(gargs.begin() + r.Below(2), r.PickOf<std::string>({"--demangle_symbol_names=false", "--nodemangle_symbol_names"}));
      if (ok(run("G_tool_dump_gcov", gargs, &text), "dump_gcov", gargs)) {
        std::vector<std::pair<uint64_t, std::string>> by;
        for (auto &[k, s] : want) if (s.total) by.push_back({~s.total, k});
        std::sort(by.begin(), by.end());
        for (auto &[t, k] : by) Render(k, want[k], 0, true, &exp);
        ctx.Check(text == exp, "dump_gcov", [&] { return "want\n" + exp.substr(0, 1000) + "\ngot\n" + text.substr(0, 1000); });
        ctx.Count("dumps");
      }
      ctx.Count("gcov_merges");
      if (!want.empty()) ctx.Nontrivial(Mix(HashProf(want), version));
      ctx.Sample([&] { return Join(args) + " -> " + exp.substr(0, 600); });
    }
  } else if (what < 7) {  // profile_diff
    GenOpt o;
    auto profs = SomeProfiles(r, 2, &o, false);
    uint64_t tot[2] = {0, 0};
    for (int i = 0; i < 2; i++) {
      afdo::SymbolMap m;
      Populate(m, profs[i]);
      m.set_count_threshold(0);
      files.push_back(ctx.Tmp("in" + std::to_string(i)));
      afdo::LLVMProfileWriter w(r.PickOf<lsp::SampleProfileFormat>({lsp::SPF_Text, lsp::SPF_Binary, lsp::SPF_Ext_Binary}));
      w.CreateSampleWriter(files.back());
      w.setSymbolMap(&m);
      if (!ctx.Check(w.WriteToFile(files.back()), "write", [&] { return ""; })) return;
      for (auto &[k, s] : profs[i]) tot[i] += s.total;
    }
    double want = 0;
    for (auto &[k, s] : profs[0]) if (profs[1].count(k)) want += std::min(static_cast<double>(s.total) / tot[0], static_cast<double>(profs[1][k].total) / tot[1]);
    std::string text;
    // Also function by function: those hot in the first profile, then those hot in the second one only.
    const bool compare = r.Chance(2, 3);
    const uint64_t cutoff = r.PickOf<uint64_t>({0, 1, 2, 2, 10, 50, 100});
    std::vector<std::string> dargs = files;
    if (compare) {
      dargs.insert(dargs.begin(), r.Chance(1, 2) ? "--compare_function" : "--compare_function=true");
      if (cutoff != 2 || r.Chance(1, 2)) dargs.insert(dargs.begin() + r.Below(dargs.size() + 1), "--dump_cutoff_percent=" + std::to_string(cutoff));
    }
    if (ok(run("L_tool_profile_diff", dargs, &text), "profile_diff", dargs)) {
      if (compare) {
        uint64_t max[2] = {0, 0};
        for (int i = 0; i < 2; i++) for (auto &[k, s] : profs[i]) max[i] = std::max(max[i], s.total);
        auto total = [&](int i, const std::string &n) { auto it = profs[i].find(n); return it == profs[i].end() ? uint64_t{0} : it->second.total; };
        std::vector<std::pair<std::pair<int, uint64_t>, std::string>> lines;  // order, text
        for (int i = 0; i < 2; i++)
          for (auto &[k, s] : profs[i]) {
            if (!s.total || s.total * 100 < max[i] * cutoff) continue;
            if (i && profs[0].count(k) && total(0, k) * 100 >= max[0] * cutoff && (cutoff || total(0, k))) continue;
            char buf[64];
            snprintf(buf, sizeof buf, "%3.4f%% %3.4f%% ", 100.0 * total(0, k) / max[0], 100.0 * total(1, k) / max[1]);
            lines.push_back({{i, ~s.total}, buf + k});
          }
        std::sort(lines.begin(), lines.end());
        std::vector<std::string> got_lines = absl::StrSplit(text, '\n');
        // Equally hot functions come in any order.
        std::string problem;
        if (got_lines.size() != lines.size() + 2) problem = std::to_string(got_lines.size()) + " lines instead of " + std::to_string(lines.size() + 2);
        for (size_t i = 0, j; problem.empty() && i < lines.size(); i = j) {
          for (j = i; j < lines.size() && lines[j].first == lines[i].first; j++) {}
          std::sort(got_lines.begin() + i, got_lines.begin() + j);
          for (size_t k = i; k < j; k++) if (got_lines[k] != lines[k].second) { problem = "'" + got_lines[k] + "' instead of '" + lines[k].second + "'"; break; }
        }
        ctx.Check(problem.empty(), "compared functions", [&] { return problem + " cutoff " + std::to_string(cutoff) + " in\n" + text; });
        ctx.Count("functions_compared", lines.size());
        text = got_lines.size() >= 2 ? got_lines[got_lines.size() - 2] : "";
      }
      double got = atof(text.c_str());
      ctx.Check(!text.empty() && std::abs(got - want) < 2e-4, "overlap", [&] { return "want " + std::to_string(want) + " got " + text; });
      ctx.Nontrivial(Mix(HashProf(profs[0]), HashProf(profs[1])));
      ctx.Count("diffs");
      ctx.Sample([&] { return "overlap " + text; });
    }
  } else {  // what cannot be done is not reported as done
    std::string bin, txt;
    if (!Tiny(ctx, &bin, &txt)) { ctx.Count("not_compiled"); return; }
    std::string missing = ctx.Tmp("missing"), junk = ctx.Tmp("junk"), prof = ctx.Tmp("good.prof"), gprof = ctx.Tmp("good.gcov");
    std::string garbage;
    for (int i = 0, n = r.Below(200); i < n; i++) garbage += static_cast<char>(r.Chance(1, 2) ? ' ' + r.Below(95) : r.Below(256));
    // Not by accident the beginning of a profile.
    WriteFile(junk, "?" + garbage);
    unlink(missing.c_str());
    {
      afdo::SymbolMap m;
      MProf p;
      MSym s;
      s.total = s.pos[0].count = 100;
      p["f"] = s;
      Populate(m, p);
      m.set_count_threshold(0);
      afdo::LLVMProfileWriter w(lsp::SPF_Text);
      w.CreateSampleWriter(prof);
      w.setSymbolMap(&m);
      absl::SetFlag(&FLAGS_gcov_version, 2);
      afdo::AutoFDOProfileWriter g(&m, 2);
      if (!w.WriteToFile(prof) || !g.WriteToFile(gprof)) { ctx.Fail("write", ""); return; }
    }
    auto nofile = [&] { return r.PickOf<std::string>({missing, junk, ctx.tmp}); };
    auto nowhere = [&] { return r.PickOf<std::string>({ctx.Tmp("no/dir"), ctx.tmp, "/dev/full"}); };
    std::string tool, why;
    std::map<std::string, std::string> f;  // flag -> value
    std::vector<std::string> pos;          // positional
    decltype(f) f0;
    decltype(pos) pos0;
    switch (r.Below(7)) {
      case 0: case 1: case 2: {
        tool = "L_tool_create_llvm_prof";
        f = {{"binary", bin}, {"profile", txt}, {"profiler", "text"}, {"out", out}, {"format", r.PickOf<std::string>({"text", "binary", "extbinary"})}};
        f0 = f; pos0 = pos;
        switch (r.Below(11)) {
          case 0: f.erase("out"); why = "no output"; break;
          case 1: f["gcov"] = r.PickOf<std::string>({out + "2", ctx.Tmp("ouu.prof"), ctx.Tmp("o")}); why = "two outputs"; break;
          case 2: f["ignore_build_id"] = "true"; why = "ignoring build ids"; break;
          case 3: f["profile"] = txt + ";" + txt; why = "several profiles"; break;
          case 4: f["profile"] = "@" + txt; why = "list of profiles"; break;
          case 5: f["format"] = r.PickOf<std::string>({"Text", "json", "", "binary "}); why = "unknown format"; break;
          case 6: f["prof_sym_list"] = "true"; f["format"] = r.PickOf<std::string>({"text", "binary"}); why = "symbol list"; break;
          case 7: f["binary"] = nofile(); why = "no binary"; break;
          case 8: f["profile"] = nofile(); why = "no profile"; break;
          case 9: f["out"] = nowhere(); why = "unwritable"; break;
          case 10: f["profiler"] = r.PickOf<std::string>({"", "Perf", "gprof"}); why = "unknown profiler"; break;
        }
        break;
      }
      case 3: {
        tool = "G_tool_create_gcov";
        f = {{"binary", bin}, {"profile", txt}, {"profiler", "text"}, {"gcov", out}, {"gcov_version", std::to_string(r.In(1, 3))}};
        f0 = f; pos0 = pos;
        switch (r.Below(4)) {
          case 0: f["binary"] = nofile(); why = "no binary"; break;
          case 1: f["profile"] = nofile(); why = "no profile"; break;
          case 2: f["gcov"] = nowhere(); why = "unwritable"; break;
          case 3: f["profiler"] = r.PickOf<std::string>({"", "Perf", "gprof"}); why = "unknown profiler"; break;
        }
        break;
      }
      case 4: {
        tool = "L_tool_sample_merger";
        f = {{"binary", bin}, {"profiles", txt + "," + txt}, {"profiler", "text"}, {"output_file", out}};
        f0 = f; pos0 = pos;
        switch (r.Below(4)) {
          case 0: f["profiles"] = txt + "," + nofile(); why = "no profile"; break;
          case 1: f["output_file"] = nowhere(); why = "unwritable"; break;
          case 2: f["profiler"] = r.PickOf<std::string>({"", "Perf", "gprof"}); why = "unknown profiler"; break;
          case 3: WriteFile(junk + "o", "junk"); f["output_file"] = junk + "o"; why = "output is no profile"; break;
        }
        break;
      }
      case 5: {
        bool g = r.Chance(1, 2);
        tool = g ? "G_tool_profile_merger" : "L_tool_profile_merger";
        f = {{"output_file", out}};
        if (!g) { f["is_llvm"] = "true"; f["format"] = r.PickOf<std::string>({"text", "binary", "extbinary"}); }
        pos = {g ? gprof : prof, g ? gprof : prof};
        f0 = f; pos0 = pos;
        switch (r.Below(3)) {
          case 0: pos[r.Below(2)] = nofile(); why = "no profile"; break;
          case 1: f["output_file"] = nowhere(); why = "unwritable"; break;
          case 2: if (g) { pos = {}; f = {}; why = "no arguments"; } else { f["format"] = "json"; why = "unknown format"; } break;
        }
        break;
      }
      case 6: {
        bool g = r.Chance(1, 2);
        tool = g ? "G_tool_dump_gcov" : "L_tool_profile_diff";
        pos = g ? std::vector<std::string>{gprof} : std::vector<std::string>{prof, prof};
        f0 = f; pos0 = pos;
        switch (r.Below(2)) {
          case 0: pos[r.Below(pos.size())] = nofile(); why = "no profile"; break;
          case 1: if (r.Chance(1, 2)) pos.pop_back(); else pos.push_back(prof); why = "number of arguments"; break;
        }
        break;
      }
    }
    bool control = r.Chance(1, 4);
    if (control) { f = f0; pos = pos0; why = "nothing wrong"; }
    std::vector<std::string> args;
    for (auto &[k, v] : f) args.push_back("--" + k + "=" + v);
    r.Shuffle(args);
    for (auto &x : pos) args.push_back(x);
    int st = run(tool, args);
    if (control) { ctx.Count("controls"); ok(st, tool.substr(7), args); }
    else ctx.Check(st != 0, tool.substr(7) + " reports success: " + why, [&] { return Join(args) + ": " + Tail(err); });
    ctx.Count("rejected");
    ctx.Nontrivial(HashStr(tool + why + f["format"]));
    ctx.Sample([&] { return why + ": " + tool + Join(args) + " -> " + std::to_string(st); });
    for (auto &x : {bin, txt, junk, junk + "o", prof, gprof}) unlink(x.c_str());
  }
  for (auto &x : files) unlink(x.c_str());
  unlink(out.c_str());
}

namespace {
// Which values a target of a position may have, per function object joined into one.
struct HintModel {
  // canonical name of the function -> (path, offset, target) -> part (symbol) -> values seen there
  using Key = std::tuple<std::vector<std::pair<uint64_t, std::string>>, uint64_t, std::string>;
  std::map<std::string, std::map<Key, std::map<std::string, std::vector<uint64_t>>>> at;
};
uint64_t PosOf(const afdo::SourceInfo &i, bool enc) {
  uint32_t d = i.discriminator;
  if (enc) d = llvm::DILocation::getBaseDiscriminatorFromDiscriminator(d, false);
  return (static_cast<uint64_t>((i.line - i.start_line) & 0xffff) << 32) | d;
}
using Found = std::map<HintModel::Key, uint64_t>;
void Collect(const MSym &s, std::vector<std::pair<uint64_t, std::string>> *path, Found *out, std::string *odd) {
  for (auto &[off, p] : s.pos) {
    if (p.count) *odd = "a position with a count";
    for (auto &[t, c] : p.targets) (*out)[{*path, off, t}] = c;
  }
  for (auto &[k, c] : s.calls) { path->push_back(k); Collect(c, path, out, odd); path->pop_back(); }
}
std::string ShowKey(const HintModel::Key &k) {
  std::string s;
  for (auto &[o, n] : std::get<0>(k)) s += Hex(o) + " " + n + " / ";
  return s + Hex(std::get<1>(k)) + " " + std::get<2>(k);
}
}  // namespace

// C35: prefetch hints and cache misses reach their source positions.
VPROP(C35_hints) {
  Rng &r = ctx.rng;
  Real x;
  if (!Compile(ctx, &x)) { Sh("rm -rf " + x.p.dir); return; }
  for (int round = 0; round < 6; round++) {
    bool gcov = x.gcc && r.Chance(1, 2), llc = r.Chance(1, 2);
    std::string policy = r.Chance(1, 3) ? r.PickOf<std::string>({"all", "none", "selected"}) : "selected";
    std::vector<int> hot;
    for (int i = 0, n = 1 + r.Below(5); i < n; i++) hot.push_back(r.Pick(x.good));
    std::vector<uint64_t> pcs;
    auto pick = [&]() -> uint64_t {
      if (!pcs.empty() && r.Chance(1, 4)) return r.Pick(pcs);
      if (r.Chance(1, 12)) {  // outside all functions
        uint64_t a = r.Chance(1, 2) ? x.elf.vaddr + r.Below(x.elf.memsz) : r.Below(1 << 30);
        for (auto &f : x.fns) if (a >= f.addr && a < f.addr + f.size) return 0;
        return a;
      }
      const Fn &f = x.fns[r.Pick(hot)];
      uint64_t a = r.Chance(1, 4) ? f.addr : r.Chance(1, 6) ? f.addr + f.size - 1 : f.addr + r.Below(f.size);
      pcs.push_back(a);
      return a;
    };
    std::string in = ctx.Tmp("hints"), text, out = ctx.Tmp("out.prof"), err;
    std::vector<std::tuple<uint64_t, std::string, uint64_t>> events;  // address, target, value
    std::map<uint64_t, int> index;
    int n = r.Below(r.Chance(1, 3) ? 60 : 8);
    if (!llc) {
      for (int i = 0; i < n; i++) {
        uint64_t a = pick();
        int64_t d = r.Chance(1, 4) ? static_cast<int64_t>(r.Next()) : r.Chance(1, 2) ? static_cast<int64_t>(r.Below(8192)) - 4096 : 1 + r.Below(1 << 20);
        if (r.Chance(1, 20)) d = r.PickOf<int64_t>({INT64_MAX, INT64_MIN, -1, 64});
        std::string type = r.PickOf<std::string>({"NTA", "T0", "T1", "T2", "abcdefghijklmno", "x"});
        text += (r.Chance(1, 6) ? "0x" : "") + Hex(a).substr(2) + "," + std::to_string(d) + "," + type + (i + 1 == n && r.Chance(1, 3) ? "" : "\n");
        bool in_fn = FnAt(x.fns, a);
        if (in_fn && index[a] < 250) events.push_back({a, "__prefetch_" + type + "_" + std::to_string(index[a]++), static_cast<uint64_t>(d)});
      }
    } else {
      std::map<uint64_t, uint64_t> addrs;
      for (int i = 0; i < n; i++) if (uint64_t a = pick()) if (a - x.elf.vaddr < x.elf.memsz) addrs[a] += r.Chance(1, 2) ? 1 + r.Below(20) : 1 + r.Below(1ull << r.Below(40));
      text = "0\n" + std::to_string(addrs.size()) + "\n";
      for (auto &[a, c] : addrs) {
        text += Hex(a - x.elf.vaddr + x.elf.off).substr(2) + ":" + std::to_string(c) + "\n";
        if (FnAt(x.fns, a)) events.push_back({a, "__llc_misses__", c});
      }
      text += "0\n";
    }
    WriteFile(in, text);
    unlink(out.c_str());
    HintModel m;
    for (auto &[a, t, v] : events) {
      const Fn *f = FnAt(x.fns, a);
      auto it = x.stacks.find(a);
      if (it == x.stacks.end()) continue;
      auto &st = it->second;
      std::vector<std::pair<uint64_t, std::string>> path;
      for (int i = st.size() - 1; i > 0; i--) path.push_back({PosOf(st[i], !gcov), st[i - 1].func_name});
      std::vector<std::string> names = f->aliases;
      names.push_back(f->name);
      for (auto &nm : names) m.at[CanonName(policy, nm)][{path, PosOf(st[0], !gcov), t}][f->name].push_back(v);
    }
    std::vector<std::string> args = {"--binary=" + x.p.binary, "--profile=" + in, "--suffix_elision_policy=" + policy};
    if (llc) { args.push_back("--profiler=text"); args.push_back("--llc_misses"); if (r.Chance(1, 2)) args.push_back("--nouse_lbr"); if (r.Chance(1, 3)) args.push_back("--sample_threshold_frac=0.5"); }
    else args.push_back("--profiler=prefetch");
    std::string fmt = "gcov", tool = gcov ? "G_tool_create_gcov" : "L_tool_create_llvm_prof";
    if (gcov) args.push_back("--gcov=" + out);
    else { fmt = r.PickOf<std::string>({"text", "binary", "extbinary"}); args.push_back("--out=" + out); args.push_back("--format=" + fmt); }
    if (gcov && r.Chance(1, 2)) args.push_back("--gcov_version=" + std::to_string(1 + r.Below(3)));
    r.Shuffle(args);
    int st = RunTool(ctx, Tool(tool), args, &err);
    ctx.Check(!Sanitizer(err), "undefined behaviour in a tool", [&] { return tool + Join(args) + ": " + err.substr(0, 3000); });
    if (!ctx.Check(st == 0, tool + " fails", [&] { return "exit status " + std::to_string(st) + " from" + Join(args) + ": " + Tail(err) + "\n" + text.substr(0, 2000); })) continue;
    MProf got;
    absl::SetFlag(&FLAGS_suffix_elision_policy, policy);
    std::string e = gcov ? ReadGcov(ctx, out, &got) : "";
    if (!gcov && !ReadDirect(out, &got, &err)) e = err;
    if (!e.empty()) {
      if (gcov || !m.at.empty()) ctx.Fail("tool output unreadable", fmt + ": " + e);
      continue;
    }
    auto more = [&] { return "\n" + x.about + "\n" + tool + Join(args) + "\n" + text.substr(0, 2000) + "\ngot " + ShowProf(got); };
    for (auto &[nm, keys] : m.at) {
      auto it = got.find(nm);
      if (!ctx.Check(it != got.end(), "function with hints missing", [&] { return nm + more(); })) continue;
      Found found;
      std::vector<std::pair<uint64_t, std::string>> path;
      std::string odd;
      Collect(it->second, &path, &found, &odd);
      ctx.Check(odd.empty(), "hints with counts", [&] { return odd + " in " + nm + more(); });
      for (auto &[k, parts] : keys) {
        auto fi = found.find(k);
        if (!ctx.Check(fi != found.end(), "hint missing", [&] { return nm + " " + ShowKey(k) + more(); })) continue;
        // One value of each part of the function (misses: up to their sum).
        std::set<uint64_t> can = {0};
        uint64_t hi = 0;
        for (auto &[f, vs] : parts) {
          std::set<uint64_t> next;
          for (uint64_t c : can) for (uint64_t v : vs) next.insert(c + v);
          can = next;
          for (uint64_t v : vs) hi += v;
        }
        uint64_t g = fi->second;
        ctx.Check(llc ? g >= *can.begin() && g <= hi : can.count(g) > 0, "wrong value of a hint", [&] { return nm + " " + ShowKey(k) + " = " + std::to_string(g) + ", want " + std::to_string(*can.begin()) + more(); });
        ctx.Count(llc ? "misses" : "hints");
        if (!std::get<0>(k).empty()) ctx.Count("inlined");
        found.erase(fi);
      }
      ctx.Check(found.empty(), "target without a hint", [&] { return nm + " " + ShowKey(found.begin()->first) + more(); });
    }
    for (auto &[nm, s] : got) ctx.Check(m.at.count(nm), "function without hints", [&] { return nm + more(); });
    uint64_t h = HashStr(fmt + (llc ? "l" : "p"));
    for (auto &[a, t, v] : events) h = Mix(h, Mix(a, HashStr(t) + v));
    if (!m.at.empty()) ctx.Nontrivial(h);
    ctx.Sample([&] { return x.about + " | " + tool + Join(args) + " | " + text.substr(0, 300); });
  }
  // What cannot be read is refused.
  if (r.Chance(1, 2)) {
    bool gcov = r.Chance(1, 2);
    std::string in = ctx.Tmp("hints"), out = ctx.Tmp("out.prof"), err, tool = gcov ? "G_tool_create_gcov" : "L_tool_create_llvm_prof";
    unlink(in.c_str());
    std::vector<std::string> args = {"--binary=" + x.p.binary, "--profile=" + in, "--profiler=prefetch", (gcov ? "--gcov=" : "--out=") + out};
    std::string good = Hex(x.fns[x.good[0]].addr).substr(2) + ",64,NTA\n", text, what;
    switch (r.Below(4)) {
      case 0: what = "missing"; break;
      case 1: what = "malformed"; text = good + r.PickOf<std::string>({"xyz", "12", "12,", "12,5", "12,5,", "12,abc,NTA", "12;5;NTA", ",5,NTA"}) + "\n"; break;
      case 2: what = "malformed"; text = r.PickOf<std::string>({"PC,delta,type", "hello", "12 5 NTA"}) + "\n" + good; break;
      default: what = "binary missing"; text = good; args[0] += ".gone"; break;
    }
    if (!text.empty()) WriteFile(in, text);
    int st = RunTool(ctx, Tool(tool), args, &err);
    ctx.Check(!Sanitizer(err), "undefined behaviour in a tool", [&] { return tool + Join(args) + ": " + err.substr(0, 3000); });
    ctx.Check(st != 0, tool + " succeeds without the hints", [&] { return what + ": " + Join(args) + "\n" + text + Tail(err); });
    ctx.Count("refused");
  }
  ctx.Count("programs");
  if (!getenv("VERIF_DEBUG")) Sh("rm -rf " + x.p.dir);
}
