// Monitors of the GCC-format profile writer and reader.
// link: core
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include "vcommon.h"
#include "vsym.h"
#include "gcov.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(uint64_t, gcov_version);
using namespace vh;
using namespace devtools_crosstool_autofdo;

// ---- an independent reader of the file format -------------------------------
struct GFile {
  std::string err;
  uint32_t version = 0;
  std::vector<uint64_t> summary;                      // total max maxfunc num funcs
  std::vector<std::array<uint64_t, 3>> detailed;
  std::vector<uint64_t> counts;                       // of every position record
  std::vector<std::string> files;
  std::vector<std::pair<std::string, int64_t>> names;
  uint32_t names_len = 0, func_len = 0, names_words = 0, func_words = 0;
  struct Rec { std::string name; uint64_t head = 0, ts = 0; MSym s; };
  std::vector<Rec> funcs;
  std::vector<std::pair<uint32_t, uint64_t>> ws;
};
struct GParse {
  std::string d;
  size_t o = 0;
  bool bad = false;
  uint32_t U() {
    if (o + 4 > d.size()) { bad = true; return 0; }
    uint32_t v; memcpy(&v, &d[o], 4); o += 4; return v;
  }
  uint64_t C() { uint64_t lo = U(), hi = U(); return lo | hi << 32; }
  std::string Str(uint32_t version) {
    uint64_t n = U();
    if (version < 2) n *= 4;
    if (bad || o + n > d.size() || n == 0) { bad = true; return ""; }
    std::string s = d.substr(o, n);
    o += n;
    size_t z = s.find('\0');
    if (z == std::string::npos) { bad = true; return s; }
    for (size_t i = z; i < s.size(); i++) if (s[i]) bad = version >= 2 ? true : bad;
    return s.substr(0, z);
  }
};
static MSym ParseSym(GParse &p, GFile &f, int depth) {
  MSym s;
  uint32_t np = p.U(), nc = p.U();
  f.func_words += 2;
  if (depth > 200) p.bad = true;
  for (uint32_t i = 0; i < np && !p.bad; i++) {
    uint32_t off = p.U(), nt = p.U();
    uint64_t c = p.C();
    f.func_words += 4;
    uint64_t key = (static_cast<uint64_t>(off >> 16) << 32) | (off & 0xffff);
    if (s.pos.count(key)) f.err = "position written twice";
    MPos &mp = s.pos[key];
    mp.count = c;
    f.counts.push_back(c);
    mp.num_inst = 1;
    for (uint32_t j = 0; j < nt && !p.bad; j++) {
      uint32_t type = p.U();
      if (type != 7) f.err = "unknown histogram type " + std::to_string(type);
      uint64_t idx = p.C(), n = p.C();
      f.func_words += 5;
      if (idx >= f.names.size()) { p.bad = true; break; }
      mp.targets[f.names[idx].first] += n;
    }
  }
  for (uint32_t i = 0; i < nc && !p.bad; i++) {
    uint32_t off = p.U(), idx = p.U();
    f.func_words += 2;
    if (idx >= f.names.size()) { p.bad = true; break; }
    uint64_t key = (static_cast<uint64_t>(off >> 16) << 32) | (off & 0xffff);
    MergeSym(s.calls[{key, f.names[idx].first}], ParseSym(p, f, depth + 1));
  }
  return s;
}
static GFile ParseGcov(const std::string &data) {
  GFile f;
  GParse p{data};
  auto fail = [&](const std::string &m) { if (f.err.empty()) f.err = m + " at byte " + std::to_string(p.o); };
  if (p.U() != 0x67636461) fail("bad magic");
  f.version = p.U();
  p.U();
  if (f.version >= 3) {
    if (p.U() != 0xa8000000) fail("bad summary tag");
    for (int i = 0; i < 5; i++) f.summary.push_back(p.C());
    uint64_t n = p.C();
    for (uint64_t i = 0; i < n && !p.bad; i++) { uint64_t a = p.U(), b = p.C(), c = p.C(); f.detailed.push_back({a, b, c}); }
  }
  if (p.U() != 0xaa000000) fail("bad name table tag");
  f.names_len = p.U();
  size_t start = p.o;
  if (f.version >= 3) {
    uint32_t n = p.U();
    for (uint32_t i = 0; i < n && !p.bad; i++) f.files.push_back(p.Str(f.version));
  }
  uint32_t n = p.U();
  for (uint32_t i = 0; i < n && !p.bad; i++) {
    std::string s = p.Str(f.version);
    int64_t fi = -1;
    if (f.version >= 3) { fi = static_cast<int32_t>(p.U()); }
    f.names.push_back({s, fi});
  }
  f.names_words = (p.o - start) / 4;
  if (p.U() != 0xac000000) fail("bad function tag");
  f.func_len = p.U();
  uint32_t nf = p.U();
  f.func_words = 1;
  for (uint32_t i = 0; i < nf && !p.bad; i++) {
    GFile::Rec r;
    r.head = p.C();
    if (f.version >= 3) r.ts = p.C();
    uint32_t idx = p.U();
    f.func_words += 3;
    if (idx >= f.names.size()) { p.bad = true; break; }
    r.name = f.names[idx].first;
    r.s = ParseSym(p, f, 0);
    f.funcs.push_back(r);
  }
  if (p.U() != 0xae000000 || p.U() != 0 || p.U() != 0) fail("bad module section");
  if (p.U() != 0xaf000000 || p.U() != 3 * 128) fail("bad working set header");
  for (int i = 0; i < 128; i++) { uint32_t a = p.U(); uint64_t b = p.C(); f.ws.push_back({a, b}); }
  if (p.bad) fail("ran out of data or bad index");
  if (p.o != data.size()) fail("trailing bytes");
  return f;
}

static std::string Rename(const std::string &n) {
  auto ends = [&](const char *s) { size_t l = strlen(s); return n.size() > l + 1 && n.compare(n.size() - l, l, s) == 0; };
  std::string r = n;
  if (ends("D4Ev") || ends("C4Ev")) r[n.size() - 3] = '2';
  else if (ends("C4EPKc")) r[n.size() - 5] = '2';
  else if (ends("C4EPKcRKS2_")) r[n.size() - 10] = '2';
  return r;
}
static bool HasPos(const MSym &s) {
  if (!s.pos.empty()) return true;
  for (auto &[k, c] : s.calls) if (HasPos(c)) return true;
  return false;
}
// What reading back gives: names as written, inlined callees without any position gone.
static MSym Expect(const MSym &s) {
  MSym r;
  r.head = s.head; r.ts = s.ts; r.file = s.file;
  for (auto &[off, p] : s.pos) {
    MPos q; q.count = p.count; q.num_inst = 1;
    for (auto &[t, c] : p.targets) q.targets[Rename(t)] += c;
    r.pos[off] = q;
    r.total += p.count;
  }
  for (auto &[cs, c] : s.calls)
    if (HasPos(c)) { MSym e = Expect(c); MergeSym(r.calls[{cs.first, Rename(cs.second)}], e); r.total += e.total; }
  return r;
}
// Every instance of a function comes from the same file.
static std::string FileOf(const std::string &n) {
  static const char *kFiles[] = {"a.c", "b.cc", "dir/c.cc", "", "a.cc", "../inc/d.h", "/e.c", "d/f.c", "/abs/g.c"};
  return kFiles[HashStr(Rename(n)) % 9];
}
static void SetFiles(const std::string &n, MSym &s) {
  s.file = FileOf(n);
  for (auto &[cs, c] : s.calls) SetFiles(cs.second, c);
}
static std::vector<std::string> Names(Rng &r) {
  std::vector<std::string> v = {"main", "foo", "bar", "_Z3bazv", "_ZN1AD4Ev", "_ZN1AC4Ev", "_ZN1BC4EPKc", "_ZN1BC4EPKcRKS2_", "_ZN1AD2Ev", "x", "D4Ev", "operator_new"};
  int n = r.Below(6);
  for (int i = 0; i < n; i++) {
    std::string s;
    int len = r.Chance(1, 10) ? r.In(200, 3000) : r.In(1, 40);
    for (int j = 0; j < len; j++) s += static_cast<char>("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"[r.Below(64)]);
    v.push_back(s);
  }
  if (r.Chance(1, 3)) v.push_back("_Z4\xc3\xa9t\xc3\xa9v");
  return v;
}
static uint64_t PickVersion(Rng &r) { return r.PickOf<uint64_t>({1, 2, 3, 3, 0x3430372a, 0x34303670}); }
struct GenP { MProf prof; bool one_file = false; uint64_t threshold = 0; std::vector<std::pair<uint32_t, uint64_t>> ws; uint64_t version = 3; };
static GenP Gen(Rng &r) {
  GenP g;
  GenOpt o;
  o.names = Names(r);
  o.count_bits = r.PickOf<int>({4, 12, 32, 50, 57});
  o.max_funcs = r.PickOf<int>({1, 4, 12});
  o.max_depth = r.In(0, 4);
  g.prof = GenProf(r, o);
  for (auto &[n, s] : g.prof) { s.ts = r.Mag(64); if (r.Chance(1, 2)) s.file = r.PickOf<const char *>({"a.c", "b.cc", "dir/c.cc", ""}); }
  g.one_file = r.Chance(1, 2);
  if (g.one_file) for (auto &[n, s] : g.prof) SetFiles(n, s);
  if (r.Chance(1, 2)) g.threshold = r.Mag(o.count_bits);
  for (int i = 0; i < 128; i++) g.ws.push_back({static_cast<uint32_t>(r.Mag(32)), r.Mag(60)});
  g.version = PickVersion(r);
  return g;
}
// A file is named by its directory and its name in it: the writer joins them.
static void SplitDir(Symbol *s) {
  std::string f = s->info.file_name;
  size_t cut = f.rfind('/');
  if (f == "/abs/g.c") { s->info.dir_name = "x/y"; return; }  // An absolute name needs no directory.
  if (cut == std::string::npos || HashStr(f + "|") % 4 == 0) return;
  s->info.dir_name = cut ? f.substr(0, cut) : "/";
  s->info.file_name = f.substr(cut + 1);
}
static void SplitDirs(Symbol *s) {
  SplitDir(s);
  for (auto &[cs, c] : s->callsites) SplitDirs(c);
}
static void Fill(SymbolMap &m, const GenP &g) {
  Populate(m, g.prof);
  for (auto &[n, s] : g.prof) {
    m.AddSymbolTimestamp(n, s.ts);
    const_cast<Symbol *>(m.GetSymbolByName(n))->info.file_name = s.file;
    if (g.one_file) SplitDirs(const_cast<Symbol *>(m.GetSymbolByName(n)));
  }
  m.set_count_threshold(g.threshold);
  for (int i = 0; i < 128; i++) m.UpdateWorkingSet(i, g.ws[i].first, g.ws[i].second);
}
static bool WriteG(const std::string &path, const SymbolMap &m, uint64_t version) {
  absl::SetFlag(&FLAGS_gcov_version, version);
  AutoFDOProfileWriter w(&m, version);
  return w.WriteToFile(path);
}
static MProf Emitted(const GenP &g) {
  MProf e;
  for (auto &[n, s] : g.prof)
    if (static_cast<int64_t>(s.total) > static_cast<int64_t>(g.threshold)) {
      MSym x = Expect(s);
      bool dup = e.count(Rename(n));
      MSym &d = e[Rename(n)];
      MergeSym(d, x);
      if (!dup) { d.ts = x.ts; d.file = x.file; } else { d.ts = ~0ull; d.file = "?"; }
    }
  return e;
}

VPROP(C06) {
  Rng &r = ctx.rng;
  GenP g = Gen(r);
  SymbolMap m;
  Fill(m, g);
  std::string path = ctx.Tmp("p.afdo");
  if (!ctx.Check(WriteG(path, m, g.version), "gcov:write-failed", [] { return "WriteToFile returned false"; })) return;
  if (r.Chance(1, 10)) {
    // A file that cannot be written in full is reported.
    struct stat st;
    uint64_t size = stat(path.c_str(), &st) ? 0 : st.st_size;
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    std::string part = r.Chance(1, 4) ? "/dev/full" : ctx.Tmp("part.afdo");
    lim = old;
    lim.rlim_cur = r.Chance(1, 2) ? size - 1 - r.Below(std::min<uint64_t>(size, 8)) : r.Below(size);
    auto was = signal(SIGXFSZ, SIG_IGN);
    if (part != "/dev/full") setrlimit(RLIMIT_FSIZE, &lim);
    bool ok = WriteG(part, m, g.version);
    setrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, was);
    if (part != "/dev/full") unlink(part.c_str());
    ctx.Check(!ok, "gcov:failed-write-reported", [&] { return part + " held " + std::to_string(lim.rlim_cur) + " of " + std::to_string(size) + " bytes, and the writer reported success"; });
    ctx.Count("failed_writes", 1);
  }
  uint32_t ver = static_cast<uint32_t>(g.version);
  // 1. The bytes follow the format and hold the profile.
  GFile f = ParseGcov(ReadFile(path));
  if (!ctx.Check(f.err.empty(), "gcov:format", [&] { return f.err + " (version " + std::to_string(ver) + ")"; })) return;
  ctx.Check(f.version == ver, "gcov:version", [&] { return std::to_string(f.version); });
  if (ver < 2) ctx.Check(f.names_len == f.names_words, "gcov:name-table-length", [&] { return "declared " + std::to_string(f.names_len) + " actual " + std::to_string(f.names_words); });
  if (ver < 3) ctx.Check(f.func_len == f.func_words, "gcov:function-length", [&] { return "declared " + std::to_string(f.func_len) + " actual " + std::to_string(f.func_words); });
  MProf want = Emitted(g);
  MProf got;
  std::map<std::string, int> times;
  for (auto &rec : f.funcs) {
    MSym x = Expect(rec.s);
    x.head = rec.head;
    bool dup = times[rec.name]++;
    MergeSym(got[rec.name], x);
    if (ver >= 3 && !dup && want.count(rec.name) && want[rec.name].ts != ~0ull)
      ctx.Check(rec.ts == want[rec.name].ts, "gcov:timestamp", [&] { return rec.name + ": want " + std::to_string(want[rec.name].ts) + " got " + std::to_string(rec.ts); });
  }
  DiffOpt plain; plain.num_inst = false;  // The file does not hold instruction counts.
  std::string d = DiffProf(want, got, plain);
  if (!d.empty()) ctx.Fail("gcov:content", "written bytes differ from the profile: " + d);
  std::map<std::string, int> listed;
  for (auto &[n, fi] : f.names) listed[n]++;
  if (ver >= 3)
    for (auto &[n, fi] : f.names)
      if (listed[n] == 1 && want.count(n) && want[n].file != "?") {
        std::string file = fi >= 0 && fi < static_cast<int64_t>(f.files.size()) ? f.files[fi] : "<none>";
        // A function also inlined somewhere may be listed with the file of that instance.
        bool inl = false;
        if (g.one_file) { ctx.Check(file == FileOf(n), "gcov:file-name", [&] { return n + ": want '" + FileOf(n) + "' got '" + file + "'"; }); continue; }
        std::function<void(const MSym &)> walk = [&](const MSym &s) { for (auto &[cs, c] : s.calls) { if (Rename(cs.second) == n) inl = true; walk(c); } };
        for (auto &[k, s] : g.prof) walk(s);
        if (!inl && Rename(n) == n) ctx.Check(file == want[n].file, "gcov:file-name", [&] { return n + ": want '" + want[n].file + "' got '" + file + "'"; });
      }
  for (int i = 0; i < 128; i++)
    ctx.Check(f.ws[i].first == g.ws[i].first / 10 && f.ws[i].second == g.ws[i].second, "gcov:working-set", [&] { return "bucket " + std::to_string(i); });
  // The summary is that of the functions in the file, for LLVM's cutoffs.
  static const uint32_t kCutoffs[] = {10000, 100000, 200000, 300000, 400000, 500000, 600000, 700000, 800000, 900000, 950000, 990000, 999000, 999900, 999990, 999999};
  if (ver >= 3) {
    std::vector<uint64_t> counts = f.counts;
    uint64_t heads = 0, nfun = 0;
    for (auto &rec : f.funcs) { nfun++; heads = std::max(heads, rec.head); }
    std::sort(counts.rbegin(), counts.rend());
    unsigned __int128 sum = 0;
    for (auto c : counts) sum += c;
    const std::vector<uint64_t> want_s = {static_cast<uint64_t>(sum), counts.empty() ? 0 : counts[0], heads, counts.size(), nfun};
    if (sum >> 64 == 0) {
      for (int i = 0; i < 5; i++) ctx.Check(f.summary[i] == want_s[i], "gcov:summary", [&] { return "number " + std::to_string(i) + ": want " + std::to_string(want_s[i]) + " got " + std::to_string(f.summary[i]); });
      if (ctx.Check(f.detailed.size() == 16, "gcov:summary-cutoffs", [&] { return std::to_string(f.detailed.size()); }))
        for (int i = 0; i < 16; i++) {
          unsigned __int128 need = sum * kCutoffs[i] / 1000000, acc = 0;
          uint64_t k = 0, min = 0;
          while (acc < need && k < counts.size()) { min = counts[k]; while (k < counts.size() && counts[k] == min) acc += counts[k++]; }
          const auto &x = f.detailed[i];
          ctx.Check(x[0] == kCutoffs[i] && x[1] == min && x[2] == k, "gcov:summary-detail", [&] { return "cutoff " + std::to_string(kCutoffs[i]) + ": want " + std::to_string(min) + " over " + std::to_string(k) + " got " + std::to_string(x[0]) + ": " + std::to_string(x[1]) + " over " + std::to_string(x[2]); });
        }
    }
  }
  // 2. The repository's own reader gives the same profile.
  absl::SetFlag(&FLAGS_gcov_version, 1);
  SymbolMap back;
  AutoFDOProfileReader rd(&back, true);
  ctx.Check(rd.ReadFromFile(path), "gcov:read-failed", [] { return "ReadFromFile returned false"; });
  if (ver >= 3 && ctx.Check(rd.GetSummaryInformation() != nullptr, "gcov:round-trip-summary", [] { return "none"; })) {
    const auto &in = *rd.GetSummaryInformation();
    bool same = f.summary == std::vector<uint64_t>{in.total_count_, in.max_count_, in.max_function_count_, in.num_counts_, in.num_functions_} && f.detailed.size() == in.detailed_summaries_.size();
    for (size_t i = 0; same && i < f.detailed.size(); i++)
      same = in.detailed_summaries_[i].cutoff_ == f.detailed[i][0] && in.detailed_summaries_[i].min_count_ == f.detailed[i][1] && in.detailed_summaries_[i].num_counts_ == f.detailed[i][2];
    ctx.Check(same, "gcov:round-trip-summary", [] { return "differs from the file"; });
    // Summaries are equal when all their numbers are.
    ProfileSummaryInformation other = in;
    ctx.Check(other == in && in == other, "gcov:summary-equality", [] { return "a copy is not equal"; });
    int k = r.Below(8);
    uint64_t *field[] = {&other.total_count_, &other.max_count_, &other.max_function_count_, &other.num_counts_, &other.num_functions_};
    if (k < 5) *field[k] += 1 + r.Below(3);
    else if (k == 5) other.detailed_summaries_.resize(r.Below(in.detailed_summaries_.size()));
    else if (k == 6) other.detailed_summaries_.emplace_back();
    else if (!in.detailed_summaries_.empty()) {
      auto &ds = other.detailed_summaries_[r.Below(in.detailed_summaries_.size())];
      int w = r.Below(3);
      if (w == 0) ds.cutoff_++; else (w == 1 ? ds.min_count_ : ds.num_counts_)++;
    }
    ctx.Check(!(other == in) && !(in == other), "gcov:summary-equality", [&] { return "equal though changed in way " + std::to_string(k); });
  }
  MProf rb = FromMap(back);
  // A function emitted without any position still exists, with no counts.
  d = DiffProf(want, rb, plain);
  if (!d.empty()) ctx.Fail("gcov:round-trip", "read back differs: " + d);
  if (ver >= 3)
    for (auto &[n, s] : want)
      if (s.ts != ~0ull && back.GetSymbolByName(n))
        ctx.Check(back.GetSymbolByName(n)->timestamp == s.ts, "gcov:round-trip-timestamp", [&] { return n; });
  // Functions, inlined ones as well, come back with the file their name is listed with.
  std::map<std::string, std::string> file_of;
  for (auto &[n, fi] : f.names) file_of[n] = fi >= 0 && fi < static_cast<int64_t>(f.files.size()) ? f.files[fi] : "";
  std::function<void(const std::string &, const MSym &)> files = [&](const std::string &n, const MSym &s) {
    if (listed[n] == 1) {
      ctx.Check(s.file == file_of[n], "gcov:round-trip-file", [&] { return n + ": listed with '" + file_of[n] + "', read back with '" + s.file + "'"; });
      if (ver >= 3 && g.one_file) ctx.Check(s.file == FileOf(n), "gcov:round-trip-file", [&] { return n + ": of '" + FileOf(n) + "', read back with '" + s.file + "'"; });
      ctx.Count("file_names_read_back");
    }
    for (auto &[cs, c] : s.calls) files(cs.second, c);
  };
  for (auto &[n, s] : rb) files(n, s);
  for (int i = 0; i < 128; i++)
    ctx.Check(back.GetWorkingSets()[i].num_counters == g.ws[i].first / 10 * 10 && back.GetWorkingSets()[i].min_counter == g.ws[i].second, "gcov:round-trip-working-set", [&] { return "bucket " + std::to_string(i); });
  if (!want.empty()) ctx.Nontrivial(Mix(HashProf(want), ver));
  ctx.Count("functions_round_tripped", want.size());
  ctx.Count("functions_below_threshold", g.prof.size() > want.size() ? g.prof.size() - want.size() : 0);
  ctx.Sample([&] { return "version " + std::to_string(ver) + " threshold " + std::to_string(g.threshold) + " " + ShowProf(want); });
}

VPROP(C07) {
  Rng &r = ctx.rng;
  int n = r.In(2, 4);
  GenOpt o;
  o.names = Names(r);
  o.count_bits = r.PickOf<int>({4, 20, 50});
  o.max_funcs = r.PickOf<int>({2, 6});
  uint64_t version = PickVersion(r);
  std::vector<std::string> files;
  MProf want, kept;              // kept: functions that have samples are not added to.
  std::set<std::string> twice;  // written more than once to one file
  std::vector<std::pair<uint64_t, uint64_t>> ws(128, {0, 0});
  for (int i = 0; i < n; i++) {
    GenP g;
    g.prof = GenProf(r, o);
    // Merging the same function, same positions, is what matters: reuse earlier shapes.
    if (i && r.Chance(1, 2))
      for (auto &[name, s] : want) if (r.Chance(1, 2)) {
        MSym c = s;
        c.ts = 0;
        std::function<void(MSym &)> scale = [&](MSym &x) {
          x.total = 0;
          for (auto &[k, p] : x.pos) { p.count = r.Mag(o.count_bits); x.total += p.count; for (auto &[t, v] : p.targets) v = r.Mag(o.count_bits); }
          for (auto &[k, y] : x.calls) { scale(y); x.total += y.total; }
        };
        scale(c);
        c.head = r.Mag(o.count_bits);
        g.prof[name] = c;
      }
    for (int b = 0; b < 128; b++) { g.ws.push_back({static_cast<uint32_t>(r.Mag(20)) * 10, r.Mag(40)}); ws[b].second += g.ws[b].second; }
    g.threshold = 0;
    g.one_file = true;
    for (auto &[k, s] : g.prof) SetFiles(k, s);
    SymbolMap m;
    Fill(m, g);
    m.set_count_threshold(-1);
    files.push_back(ctx.Tmp("m" + std::to_string(i)));
    if (!ctx.Check(WriteG(files.back(), m, version), "gcovmerge:write-failed", [] { return ""; })) return;
    MProf e;
    for (auto &[k, s] : g.prof) {
      if (e.count(Rename(k))) twice.insert(Rename(k));
      MergeSym(e[Rename(k)], Expect(s));
    }
    for (auto &[k, s] : e) {
      MergeSym(want[k], s);
      if (!kept[k].total) MergeSym(kept[k], s);
    }
  }
  std::vector<std::string> order = files;
  r.Shuffle(order);
  MProf got[2];
  uint64_t mins[2][128];
  for (int t = 0; t < 2; t++) {
    SymbolMap back;
    std::vector<std::unique_ptr<AutoFDOProfileReader>> rds;
    for (auto &f : t ? order : files) {
      rds.push_back(std::make_unique<AutoFDOProfileReader>(&back, true));
      rds.back()->ReadFromFile(f);
    }
    got[t] = FromMap(back);
    for (int b = 0; b < 128; b++) mins[t][b] = back.GetWorkingSets()[b].min_counter;
    DiffOpt opt; opt.num_inst = false;
    std::string d = DiffProf(want, got[t], opt);
    if (!d.empty()) ctx.Fail(t ? "gcovmerge:order" : "gcovmerge:sum", "merging " + std::to_string(n) + " profiles: " + d);
    for (auto &[k, s] : got[t])
      ctx.Check(s.file == (version >= 3 ? FileOf(k) : ""), "gcovmerge:file", [&] { return k + ": of '" + FileOf(k) + "', merged as of '" + s.file + "'"; });
    for (int b = 0; b < 128; b++) ctx.Check(mins[t][b] == ws[b].second, "gcovmerge:working-set", [&] { return "bucket " + std::to_string(b); });
    // Merge result written and read again is unchanged.
    if (t == 0) {
      back.set_count_threshold(-1);
      std::string f = ctx.Tmp("merged");
      WriteG(f, back, version);
      SymbolMap again;
      AutoFDOProfileReader rd(&again, true);
      rd.ReadFromFile(f);
      DiffOpt o2; o2.num_inst = false;
      std::string d2 = DiffProf(want, FromMap(again), o2);
      if (!d2.empty()) ctx.Fail("gcovmerge:written", d2);
    }
  }
  // A reader told to leave what is there adds only functions that have no samples yet.
  {
    SymbolMap back;
    std::vector<std::unique_ptr<AutoFDOProfileReader>> rds;
    for (auto &f : files) {
      rds.push_back(std::make_unique<AutoFDOProfileReader>(&back, false));
      rds.back()->ReadFromFile(f);
    }
    MProf k = FromMap(back);
    for (auto &n2 : twice) { k.erase(n2); kept.erase(n2); }
    DiffOpt opt; opt.num_inst = false;
    std::string d = DiffProf(kept, k, opt);
    if (!d.empty()) ctx.Fail("gcovmerge:keep", "reading " + std::to_string(n) + " profiles without replacing: " + d);
    for (auto &[n2, s] : kept) if (want[n2].total != s.total) ctx.Count("functions_left_alone");
  }
  ctx.Nontrivial(HashProf(want));
  ctx.Count("profiles_merged", n);
  ctx.Sample([&] { return std::to_string(n) + " profiles -> " + ShowProf(want); });
}

// Truncated and corrupted files.
VPROP(C08) {
  Rng &r = ctx.rng;
  GenP g = Gen(r);
  if (g.prof.size() > 6) while (g.prof.size() > 6) g.prof.erase(g.prof.begin());
  SymbolMap m;
  Fill(m, g);
  std::string path = ctx.Tmp("p.afdo");
  if (!WriteG(path, m, g.version)) return;
  std::string data = ReadFile(path);
  std::string bad = data;
  bool truncated = r.Chance(1, 2);
  std::string how;
  if (truncated) {
    size_t cut = r.Chance(1, 3) ? bad.size() - 1 - r.Below(std::min<size_t>(bad.size() - 1, 400)) : r.Below(bad.size());
    bad.resize(cut);
    how = "truncated to " + std::to_string(cut) + " of " + std::to_string(data.size());
  } else {
    int k = r.In(1, 4);
    for (int i = 0; i < k; i++) {
      size_t at = r.Below(bad.size());
      if (r.Chance(1, 2)) {
        at &= ~size_t{3};
        if (at + 4 > bad.size()) at -= 4;
        uint32_t v = r.PickOf<uint32_t>({0, 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, static_cast<uint32_t>(r.Next()), static_cast<uint32_t>(r.Below(70000))});
        memcpy(&bad[at], &v, 4);
      } else bad[at] ^= 1 << r.Below(8);
    }
    how = std::to_string(k) + " corruptions";
  }
  WriteFile(path, bad);
  ChildResult c = RunChild(ctx, [&] {
    alarm(8);
    SymbolMap back;
    AutoFDOProfileReader rd(&back, true);
    rd.ReadFromFile(path);
    return ShowProf(FromMap(back)).substr(0, 200);
  });
  bool oom = c.err.find("allocation-size-too-big") != std::string::npos || c.err.find("out of memory") != std::string::npos || c.err.find("bad_alloc") != std::string::npos;
  bool timeout = WIFSIGNALED(c.status) && (WTERMSIG(c.status) == SIGALRM || WTERMSIG(c.status) == SIGKILL);
  if (timeout || oom) { ctx.Count(timeout ? "inconclusive_timeout" : "inconclusive_memory"); return; }
  if (!c.exited0() && !c.clean_fatal()) {
    std::string fn = "unknown";
    size_t i = c.err.find("ERROR: AddressSanitizer"), j = c.err.find("runtime error");
    ctx.Fail(i != std::string::npos ? "gcovbad:asan" : j != std::string::npos ? "gcovbad:ubsan" : "gcovbad:crash", how + ": " + c.err.substr(std::min(i, j) == std::string::npos ? 0 : std::min(i, j), 1500));
    return;
  }
  if (truncated) ctx.Check(!c.exited0(), "gcovbad:truncated-accepted", [&] { return "a profile " + how + " was read without any error: " + c.out; });
  ctx.Count(truncated ? "truncated_files" : "corrupted_files");
  if (!c.exited0()) ctx.Count("rejected");
  ctx.Nontrivial(Mix(HashStr(bad), 1));
  ctx.Sample([&] { return how + " -> " + (c.exited0() ? "read" : "rejected: " + c.err.substr(0, 200)); });
}
