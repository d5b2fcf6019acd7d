// Writes DWARF 2-5 of random functions, inlining, ranges and line programs, in
// many of the forms the standard allows, with the inline stack it describes.
#ifndef VERIF_VDWARF_H_
#define VERIF_VDWARF_H_
#include "velf.h"
#include "vreal.h"

namespace vh {
struct DBuf {
  std::string s;
  size_t size() const { return s.size(); }
  void N(uint64_t v, int n) { for (int i = 0; i < n; i++) s += static_cast<char>(v >> (8 * i)); }
  void U8(uint64_t v) { N(v, 1); }
  void U16(uint64_t v) { N(v, 2); }
  void U32(uint64_t v) { N(v, 4); }
  void U64(uint64_t v) { N(v, 8); }
  void Uleb(uint64_t v) { s += vh::Uleb(v); }
  void Sleb(int64_t v) {
    for (;;) {
      uint8_t b = v & 0x7f;
      v >>= 7;
      bool done = (v == 0 && !(b & 0x40)) || (v == -1 && (b & 0x40));
      s += static_cast<char>(done ? b : b | 0x80);
      if (done) return;
    }
  }
  void Str(const std::string &t) { s += t; s += '\0'; }
  void Patch(size_t at, uint64_t v, int n) { for (int i = 0; i < n; i++) s[at + i] = static_cast<char>(v >> (8 * i)); }
};

enum { FAddr = 1, FBlock2 = 3, FBlock4 = 4, FData2 = 5, FData4 = 6, FData8 = 7, FString = 8, FBlock = 9, FBlock1 = 10,
       FData1 = 11, FFlag = 12, FSdata = 13, FStrp = 14, FUdata = 15, FRefAddr = 16, FRef1 = 17, FRef4 = 19, FRef8 = 20, FSecOff = 23,
       FExprloc = 24, FFlagPresent = 25, FData16 = 30, FLineStrp = 31, FRefSig8 = 32, FImplicit = 33 };
enum { TLexical = 0x0b, TCu = 0x11, TStruct = 0x13, TInlined = 0x1d, TBase = 0x24, TSub = 0x2e, TVar = 0x34, TParam = 5, TNs = 0x39,
       TLabel = 0x0a, TCallSite = 0x4109 };

struct DAttr { uint32_t at, form; uint64_t val = 0; std::string str; int ref = -1; };
struct DDie { int id = -1; uint32_t tag = 0; bool concrete = false; std::vector<DAttr> attrs; std::vector<DDie> kids; };
using DRanges = std::vector<std::pair<uint64_t, uint64_t>>;

class DwarfGen {
 public:
  struct Row { uint64_t addr; uint32_t file, line, disc; };
  struct Fn {
    int cu, style, decl_id = -1, abs_id = -1;   // style: A plain, B abstract, C declared, D both
    std::string name, linkage;
    uint32_t d1 = 0, d2 = 0;                    // lines of the declaration and of the definition
    bool has_d2 = true, discarded = false;
    DRanges r;
    uint32_t Start() const { return style >= 2 && !has_d2 ? d1 : d2; }
    const std::string &Name() const { return linkage.empty() ? name : linkage; }
  };
  struct Node { int fn; DRanges r; uint32_t file = 0, line = 0, disc = 0; std::vector<Node> kids; };
  struct Cu {
    int version;
    std::string comp;
    std::vector<std::string> dirs;                        // [0] is the compilation directory
    std::vector<std::pair<std::string, int>> files;       // as numbered in the table
    bool partial = false;                                 // declarations and abstract instances are in a partial unit
    int late = 0;                                         // files defined by the line program itself
    std::vector<Node> fns;
    std::vector<std::vector<Row>> seqs;                   // the last row: end
    uint64_t base = 0;
  };
  explicit DwarfGen(Rng &r) : r_(r) {}

  std::vector<Cu> cus;
  std::vector<Fn> fns;
  std::vector<uint64_t> points;
  bool line_only = false;  // only the line table is there
  uint64_t lo = 0, hi = 0;
  bool discarded = false;
  int min_version = 2, max_version = 5;
  bool overlaps = true;  // LLVM takes each address from the last range that starts before it
  bool sdata = true;  // LLVM takes signed constants for no line number
  std::string about;

  std::string Generate() {
    Layout();
    Lines();
    return Emit();
  }
  // The stack at an address; nothing outside of functions.
  RStack Want(uint64_t a) const {
    for (auto &cu : cus)
      for (auto &top : cu.fns) {
        if (fns[top.fn].discarded || !In(top.r, a)) continue;
        std::vector<const Node *> chain = {&top};
        for (bool more = true; more;) {
          more = false;
          for (auto &k : chain.back()->kids)
            if (In(k.r, a)) { chain.push_back(&k); more = true; break; }
        }
        const Row *row = nullptr;
        for (auto &s : cu.seqs) {
          if (a < s.front().addr || a >= s.back().addr) continue;
          for (auto &x : s) if (x.addr <= a) row = &x;
        }
        RStack out;
        uint32_t file = row->file, line = row->line, disc = row->disc;
        for (size_t i = chain.size(); i-- > 0;) {
          RFrame f;
          f.func = fns[chain[i]->fn].Name();
          f.start_line = fns[chain[i]->fn].Start();
          f.path = Path(cu, file);
          f.line = line;
          f.disc = disc;
          out.push_back(f);
          file = chain[i]->file;
          line = chain[i]->line;
          disc = chain[i]->disc;
        }
        return out;
      }
    return {};
  }

 private:
  static bool In(const DRanges &r, uint64_t a) {
    for (auto &x : r) if (x.first <= a && a < x.second) return true;
    return false;
  }
  static std::string Path(const Cu &cu, uint32_t file) {
    auto &f = cu.files[file];
    return NormalPath((std::filesystem::path(cu.comp) / cu.dirs[f.second]).string(), f.first);
  }
  uint32_t Line() { return 1 + r_.Mag(r_.Chance(1, 8) ? 24 : 11); }
  uint32_t Disc() { return r_.Chance(1, 2) ? 0 : r_.Mag(r_.Chance(1, 4) ? 32 : 6); }
  uint32_t File(const Cu &cu, bool late_ok) {
    uint32_t first = cu.version < 5 ? 1 : 0;
    return r_.In(first, cu.files.size() - 1 - (late_ok ? 0 : cu.late));
  }

  void Layout() {
    bool mixed = r_.Chance(1, 2);
    int v0 = r_.In(min_version, max_version);
    int ncu = 1 + r_.Below(4);
    for (int i = 0; i < ncu; i++) {
      Cu c;
      c.version = mixed ? r_.In(min_version, max_version) : v0;
      about += " v" + std::to_string(c.version);
      c.partial = c.version > 2 && r_.Chance(1, 5);
      if (c.partial) about += "p";
      c.comp = r_.PickOf<std::string>({"/src", "/home/u/build", "/"}) + (r_.Chance(1, 2) ? "" : std::to_string(i));
      c.dirs = {c.comp};
      int nd = r_.Below(4);
      for (int j = 0; j < nd; j++) c.dirs.push_back(r_.PickOf<std::string>({"inc", "a/b", "/usr/include", "../lib", "./x"}) + std::to_string(j));
      if (c.version < 5) c.files.push_back({"", 0});
      int nf = 1 + r_.Below(6);
      for (int j = 0; j < nf; j++) {
        // In DWARF 5 the primary file comes twice, as 0 and as 1.
        if (c.version == 5 && j == 1) { c.files.push_back(c.files[0]); continue; }
        c.files.push_back({r_.PickOf<std::string>({"f", "dir/g", "/abs/h", "../k"}) + std::to_string(j) + ".cc", static_cast<int>(r_.Below(c.dirs.size()))});
      }
      if (c.version < 5 && r_.Chance(1, 4)) {
        c.late = 1 + r_.Below(2);
        for (int j = 0; j < c.late; j++) c.files.push_back({"late" + std::to_string(j) + ".inc", static_cast<int>(r_.Below(c.dirs.size()))});
      }
      cus.push_back(c);
    }
    int nfn = 1 + r_.Below(9);
    for (int i = 0; i < nfn; i++) {
      Fn f;
      f.cu = r_.Below(ncu);
      f.style = r_.Below(4);
      f.name = "fn" + std::to_string(i);
      if (r_.Chance(1, 2)) f.linkage = "_Z" + std::to_string(f.name.size()) + f.name + "v";
      f.d1 = Line();
      f.d2 = Line();
      f.has_d2 = f.style < 2 || r_.Chance(2, 3);
      if (f.style >= 2) f.decl_id = next_id_++;
      if (f.style & 1) f.abs_id = next_id_++;
      f.discarded = discarded && r_.Chance(1, 6);
      fns.push_back(f);
    }
    struct Piece { int fn; uint64_t size; };
    std::vector<Piece> pieces;
    for (int i = 0; i < nfn; i++) {
      int n = r_.Chance(1, 3) ? 2 + r_.Below(2) : 1;
      if (fns[i].discarded) n = 1;
      // Before DWARF 3 a function is in one piece.
      if (cus[fns[i].cu].version == 2) n = 1;
      for (int j = 0; j < n; j++) pieces.push_back({i, 1 + r_.Below(r_.Chance(1, 4) ? 5000 : 120)});
    }
    if (r_.Chance(1, 2)) r_.Shuffle(pieces);
    uint64_t at = lo;
    for (auto &p : pieces) {
      if (fns[p.fn].discarded) {
        fns[p.fn].r.push_back({0, std::min<uint64_t>(p.size, 200)});
        continue;
      }
      if (r_.Chance(1, 2)) at += r_.Below(r_.Chance(1, 6) ? 70000 : 20);
      fns[p.fn].r.push_back({at, at + p.size});
      at += p.size;
    }
    hi = at;
    for (int i = 0; i < nfn; i++) {
      auto &rs = fns[i].r;
      std::sort(rs.begin(), rs.end());
      DRanges m;
      for (auto &x : rs)
        if (!m.empty() && m.back().second == x.first) m.back().second = x.second;
        else m.push_back(x);
      rs = m;
      Node n;
      n.fn = i;
      n.r = rs;
      Inline(cus[fns[i].cu], &n, 0);
      cus[fns[i].cu].fns.push_back(n);
    }
    for (auto &c : cus) {
      if (r_.Chance(1, 2)) r_.Shuffle(c.fns);
      uint64_t m = ~0ull;
      for (auto &n : c.fns) if (!fns[n.fn].discarded) for (auto &x : n.r) m = std::min(m, x.first);
      c.base = m == ~0ull || r_.Chance(1, 2) ? 0 : m;
    }
  }
  void Inline(const Cu &cu, Node *n, int depth) {
    if (depth > 4 || r_.Chance(1, depth + 3)) return;
    std::vector<int> origins;
    for (size_t i = 0; i < fns.size(); i++)
      if (fns[i].abs_id >= 0 && (fns[i].cu == fns[Root(n)].cu || r_.Chance(1, 3)) && (cu.version > 2 || fns[i].cu == fns[Root(n)].cu)) origins.push_back(i);
    if (origins.empty()) return;
    int k = 1 + r_.Below(3);
    std::vector<Node> kids(k);
    for (auto &c : kids) {
      c.fn = r_.Pick(origins);
      c.file = File(cu, false);
      c.line = Line();
      c.disc = Disc();
    }
    for (auto [a, b] : n->r) {
      uint64_t x = a;
      while (x < b) {
        uint64_t y = std::min<uint64_t>(b, x + 1 + r_.Below(std::max<uint64_t>(1, (b - a))));
        int w = r_.Below(k + 1);
        if (w < k) {
          auto &q = kids[w].r;
          if (cu.version == 2 && !q.empty() && q.back().second != x) ;  // one range only
          else if (!q.empty() && q.back().second == x && x != a && (cu.version == 2 || r_.Chance(1, 2))) q.back().second = y;
          else q.push_back({x, y});
        }
        x = y;
      }
    }
    for (auto &c : kids) {
      if (c.r.empty()) continue;
      root_ = Root(n);
      Inline(cu, &c, depth + 1);
      n->kids.push_back(c);
    }
  }
  // All nodes of a tree belong to the unit of the function at its root.
  int root_ = -1;
  int Root(const Node *n) const { return root_ >= 0 && n->line ? root_ : n->fn; }

  void Lines() {
    struct P { uint64_t a, b; int cu; };
    std::vector<P> ps;
    for (auto &f : fns)
      for (auto [a, b] : f.r) {
        if (f.discarded) cus[f.cu].seqs.push_back(Sequence(cus[f.cu], a, b));
        else ps.push_back({a, b, f.cu});
      }
    std::sort(ps.begin(), ps.end(), [](const P &x, const P &y) { return x.a < y.a; });
    bool join = r_.Chance(2, 3);
    for (size_t i = 0; i < ps.size();) {
      size_t j = i;
      while (j + 1 < ps.size() && ps[j + 1].cu == ps[i].cu && join && r_.Chance(5, 6)) j++;
      cus[ps[i].cu].seqs.push_back(Sequence(cus[ps[i].cu], ps[i].a, ps[j].b));
      i = j + 1;
    }
    for (auto &c : cus) {
      if (r_.Chance(1, 2)) r_.Shuffle(c.seqs);
      for (auto &s : c.seqs)
        for (auto &x : s) for (int d = -1; d <= 1; d++) points.push_back(x.addr + d);
      for (auto &n : c.fns) Points(n);
    }
    std::sort(points.begin(), points.end());
    points.erase(std::unique(points.begin(), points.end()), points.end());
  }
  void Points(const Node &n) {
    for (auto [a, b] : n.r) for (uint64_t x : {a, a + 1, b - 1, b, a + (b - a) / 2}) points.push_back(x);
    for (auto &k : n.kids) Points(k);
  }
  std::vector<Row> Sequence(const Cu &c, uint64_t a, uint64_t b) {
    std::vector<Row> s;
    uint64_t x = a;
    while (x < b) {
      Row w;
      w.addr = x;
      w.file = File(c, true);
      if (!s.empty() && r_.Chance(1, 2)) w.file = s.back().file;
      w.line = !s.empty() && r_.Chance(2, 3) ? std::max<int64_t>(1, static_cast<int64_t>(s.back().line) + r_.In(-6, 12)) : Line();
      if (r_.Chance(1, 40)) w.line = 0;
      w.disc = Disc();
      s.push_back(w);
      if (!r_.Chance(1, 8)) x += 1 + r_.Below(r_.Chance(1, 20) ? 4000 : r_.Chance(1, 4) ? 300 : 16);
    }
    s.push_back({b, 1, 1, 0});
    return s;
  }

  // ---- Writing ----
  Rng &r_;
  int next_id_ = 0;
  DBuf info_, abbrev_, line_, ranges_, rng_, str_, lstr_;
  std::map<std::string, uint32_t> str_off_, lstr_off_;
  struct Fix { size_t at; int n; int ref; uint64_t cu_start; };
  std::vector<Fix> fixes_;
  std::map<int, uint64_t> die_at_;

  uint32_t Strp(const std::string &s, DBuf *b, std::map<std::string, uint32_t> *m) {
    auto it = m->find(s);
    if (it != m->end()) return it->second;
    if (b->size() == 0) b->Str("");
    uint32_t o = b->size();
    b->Str(s);
    return (*m)[s] = o;
  }
  DAttr Int(const Cu &c, uint32_t at, uint64_t v, bool consts = true) {
    std::vector<uint32_t> f = {FUdata, FData8};
    if (sdata) f.push_back(FSdata);
    if (v < 0x100) f.insert(f.end(), {FData1, FData1});
    if (v < 0x10000) f.insert(f.end(), {FData2, FData2});
    if (v < 0x100000000ull) f.push_back(FData4);
    if (c.version == 5 && v < 64 && consts) f.insert(f.end(), {FImplicit, FImplicit});
    if (c.version == 5 && v < 0x7fffffff && consts) f.push_back(FImplicit);
    return {at, r_.Pick(f), v};
  }
  DAttr String(const Cu &c, uint32_t at, const std::string &s, bool cu = false) {
    DAttr a{at, r_.Chance(1, 2) ? FString : FStrp};
    if (cu && c.version == 5 && r_.Chance(1, 2)) a.form = FLineStrp;
    a.str = s;
    return a;
  }
  DAttr Ref(const Cu &c, uint32_t at, int target, bool same_cu) {
    DAttr a{at, same_cu && r_.Chance(3, 4) ? FRef4 : FRefAddr};
    a.ref = target;
    return a;
  }
  void Pcs(const Cu &c, const DRanges &rs, std::vector<DAttr> *out) {
    if (rs.size() == 1 && r_.Chance(4, 5)) {
      out->push_back({0x11, FAddr, rs[0].first});
      if (c.version < 4 || r_.Chance(1, 3)) {
        out->push_back({0x12, FAddr, rs[0].second});
      } else {
        DAttr a = Int(c, 0x12, rs[0].second - rs[0].first);
        out->push_back(a);
      }
      return;
    }
    DRanges w = rs;
    // Entries may be empty or cover each other.
    int more = r_.Chance(1, 6) ? 1 + r_.Below(3) : 0;
    for (int i = 0; i < more; i++) {
      auto [a, b] = rs[r_.Below(rs.size())];
      uint64_t x = a + r_.Below(b - a + 1), y = a + r_.Below(b - a + 1);
      if (r_.Chance(1, 3)) x = a;
      if (r_.Chance(1, 3)) y = b;
      if (!overlaps || r_.Chance(1, 3)) y = x;
      w.push_back({std::min(x, y), std::max(x, y)});
    }
    if (r_.Chance(1, 4) || (more && r_.Chance(1, 2))) r_.Shuffle(w);
    out->push_back({0x55, c.version < 4 ? FData4 : FSecOff, RangeList(c, w)});
    if (r_.Chance(1, 3)) out->push_back({0x52, FAddr, w[0].first});  // DW_AT_entry_pc
  }
  uint64_t RangeList(const Cu &c, const DRanges &w) {
    uint64_t base = c.base;
    if (c.version < 5) {
      uint64_t at = ranges_.size();
      for (auto [a, b] : w) {
        if (a < base || r_.Chance(1, 4)) {
          base = r_.Chance(1, 3) ? 0 : a - std::min<uint64_t>(a, r_.Below(50));
          ranges_.U64(~0ull);
          ranges_.U64(base);
        }
        if (a == base && b == base) continue;  // would end the list
        ranges_.U64(a - base);
        ranges_.U64(b - base);
      }
      ranges_.U64(0);
      ranges_.U64(0);
      return at;
    }
    uint64_t at = rng_.size();
    for (auto [a, b] : w) {
      if (r_.Chance(1, 4)) {
        base = r_.Chance(1, 3) ? 0 : a - std::min<uint64_t>(a, r_.Below(50));
        rng_.U8(5);
        rng_.U64(base);
      }
      int k = r_.Below(3);
      if (k == 0 && a < base) k = 1;
      rng_.U8(k == 0 ? 4 : k == 1 ? 6 : 7);
      if (k == 0) { rng_.Uleb(a - base); rng_.Uleb(b - base); }
      else if (k == 1) { rng_.U64(a); rng_.U64(b); }
      else { rng_.U64(a); rng_.Uleb(b - a); }
    }
    rng_.U8(0);
    return at;
  }
  // Attributes and children of no interest, in all kinds of forms.
  DAttr Noise(const Cu &c) {
    std::vector<uint32_t> f = {FBlock1, FBlock2, FBlock4, FBlock, FData1, FData2, FData4, FData8, FString, FStrp, FSdata, FUdata, FFlag, FRef8, FRef1};
    if (c.version >= 4) f.insert(f.end(), {FExprloc, FFlagPresent, FSecOff, FRefSig8});
    if (c.version >= 5) f.insert(f.end(), {FData16, FImplicit});
    DAttr a{r_.PickOf<uint32_t>({0x1c, 0x02, 0x2110, 0x3b01, 0x2134}), r_.Pick(f), r_.Mag(16)};
    if (a.form == FString || a.form == FStrp) a.str = "noise" + std::to_string(r_.Below(9));
    return a;
  }
  DDie Var(const Cu &c) {
    DDie d;
    d.tag = r_.PickOf<uint32_t>({TVar, TParam, TLabel, TCallSite});
    d.attrs.push_back(String(c, 0x03, "v" + std::to_string(r_.Below(20))));
    d.attrs.push_back(Int(c, 0x3b, Line()));   // decl_line of something else
    int n = r_.Below(4);
    for (int i = 0; i < n; i++) d.attrs.push_back(Noise(c));
    if (r_.Chance(1, 6)) d.kids.push_back(Var(c));
    return d;
  }
  void Extras(const Cu &c, DDie *d) {
    if (r_.Chance(1, 2)) d->attrs.push_back(Int(c, 0x3a, File(c, false)));
    if (r_.Chance(1, 2)) d->attrs.push_back(Int(c, 0x39, r_.Below(80)));
    if (r_.Chance(1, 2)) d->attrs.push_back({0x3f, c.version >= 4 ? FFlagPresent : FFlag, 1});
    if (r_.Chance(1, 3)) d->attrs.push_back({0x40, c.version >= 4 ? FExprloc : FBlock1, 1});
    if (r_.Chance(1, 3)) d->attrs.push_back(Noise(c));
  }
  void Names(const Cu &c, const Fn &f, DDie *d) {
    d->attrs.push_back(String(c, 0x03, f.name));
    if (!f.linkage.empty()) d->attrs.push_back(String(c, c.version < 4 ? 0x2007 : 0x6e, f.linkage));
  }
  // low_pc stays before high_pc.
  void Mixed(DDie *d) {
    if (r_.Chance(1, 2)) return;
    r_.Shuffle(d->attrs);
    size_t l = d->attrs.size(), h = l;
    for (size_t i = 0; i < d->attrs.size(); i++) {
      if (d->attrs[i].at == 0x11) l = i;
      if (d->attrs[i].at == 0x12) h = i;
    }
    if (l < d->attrs.size() && h < d->attrs.size() && h < l) std::swap(d->attrs[l], d->attrs[h]);
  }
  std::vector<DDie> Kids(const Cu &c, int cu, const Node &n) {
    std::vector<DDie> out;
    for (auto &k : n.kids) {
      DDie d;
      d.tag = TInlined;
      d.attrs.push_back(Ref(c, 0x31, fns[k.fn].abs_id, fns[k.fn].cu == cu && !c.partial));
      Pcs(c, k.r, &d.attrs);
      d.attrs.push_back(Int(c, 0x58, k.file));
      d.attrs.push_back(Int(c, 0x59, k.line));
      if (k.disc || r_.Chance(1, 6)) d.attrs.push_back(Int(c, 0x2136, k.disc));
      if (r_.Chance(1, 2)) d.attrs.push_back(Int(c, 0x57, r_.Below(80)));
      Mixed(&d);
      d.kids = Kids(c, cu, k);
      if (r_.Chance(1, 4)) {
        DDie lex;
        lex.tag = TLexical;
        if (r_.Chance(2, 3)) Pcs(c, n.r, &lex.attrs);
        lex.kids.push_back(d);
        if (r_.Chance(1, 2)) lex.kids.insert(lex.kids.begin(), Var(c));
        d = lex;
      }
      out.push_back(d);
      if (r_.Chance(1, 3)) out.push_back(Var(c));
    }
    if (r_.Chance(1, 2)) out.insert(out.begin(), Var(c));
    return out;
  }
  void WriteDie(const Cu &c, const DDie &d, uint64_t start, std::map<std::string, int> *abbrevs, DBuf *ab) {
    DBuf spec;
    spec.Uleb(d.tag);
    bool kids = !d.kids.empty() || r_.Chance(1, 10);
    spec.U8(kids);
    for (auto &a : d.attrs) {
      spec.Uleb(a.at);
      spec.Uleb(a.form);
      if (a.form == FImplicit) spec.Sleb(a.val);
    }
    spec.U16(0);
    auto it = abbrevs->find(spec.s);
    if (it == abbrevs->end()) {
      it = abbrevs->emplace(spec.s, static_cast<int>(abbrevs->size() + 1)).first;
      ab->Uleb(it->second);
      ab->s += spec.s;
    }
    if (d.id >= 0) die_at_[d.id] = info_.size();
    info_.Uleb(it->second);
    for (auto &a : d.attrs) {
      uint64_t n = a.val % 40;
      switch (a.form) {
        case FAddr: case FData8: case FRef8: case FRefSig8: info_.U64(a.val); break;
        case FData1: case FFlag: case FRef1: info_.U8(a.val); break;
        case FData2: info_.U16(a.val); break;
        case FData4: case FSecOff: info_.U32(a.val); break;
        case FData16: info_.U64(a.val); info_.U64(0); break;
        case FSdata: info_.Sleb(a.val); break;
        case FUdata: info_.Uleb(a.val); break;
        case FString: info_.Str(a.str); break;
        case FStrp: info_.U32(Strp(a.str, &str_, &str_off_)); break;
        case FLineStrp: info_.U32(Strp(a.str, &lstr_, &lstr_off_)); break;
        case FBlock1: info_.U8(n); info_.s.append(n, '\x9c'); break;
        case FBlock2: info_.U16(n); info_.s.append(n, '\x9c'); break;
        case FBlock4: info_.U32(n); info_.s.append(n, '\x9c'); break;
        case FBlock: case FExprloc: info_.Uleb(n); info_.s.append(n, '\x9c'); break;
        case FRef4: fixes_.push_back({info_.size(), 4, a.ref, start}); info_.U32(0); break;
        case FRefAddr: { int w = c.version == 2 ? 8 : 4; fixes_.push_back({info_.size(), w, a.ref, 0}); info_.N(0, w); break; }
        default: break;
      }
    }
    if (kids) {
      for (auto &k : d.kids) WriteDie(c, k, start, abbrevs, ab);
      info_.U8(0);
    }
  }

  void WriteLines(const Cu &c) {
    size_t start = line_.size();
    line_.U32(0);
    line_.U16(c.version);
    if (c.version == 5) { line_.U8(8); line_.U8(0); }
    size_t hl = line_.size();
    line_.U32(0);
    int min_insn = r_.PickOf({1, 1, 1, 2, 4}), line_base = r_.PickOf({-5, -3, -10, -1, 0, 1}), line_range = r_.PickOf({14, 12, 10, 4, 20, 255 - 20});
    int opcode_base = r_.PickOf({13, 13, 10, 14, 18});
    line_.U8(min_insn);
    if (c.version >= 4) line_.U8(1);
    line_.U8(r_.Below(2));
    line_.U8(line_base);
    line_.U8(line_range);
    line_.U8(opcode_base);
    static const int kLen[] = {0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1};
    std::vector<int> lens;
    for (int i = 1; i < opcode_base; i++) lens.push_back(i <= 12 ? kLen[i - 1] : r_.Below(3));
    for (int l : lens) line_.U8(l);
    size_t nfiles = c.files.size() - c.late;
    if (c.version < 5) {
      for (size_t i = 1; i < c.dirs.size(); i++) line_.Str(c.dirs[i]);
      line_.U8(0);
      for (size_t i = 1; i < nfiles; i++) {
        line_.Str(c.files[i].first);
        line_.Uleb(c.files[i].second);
        line_.Uleb(r_.Mag(40));
        line_.Uleb(r_.Mag(30));
      }
      line_.U8(0);
    } else {
      auto put = [&](const std::string &s, uint32_t form) {
        if (form == FString) line_.Str(s);
        else if (form == FStrp) line_.U32(Strp(s, &str_, &str_off_));
        else line_.U32(Strp(s, &lstr_, &lstr_off_));
      };
      uint32_t f1 = r_.PickOf<uint32_t>({FString, FStrp, FLineStrp, FLineStrp}), f2 = r_.PickOf<uint32_t>({FString, FStrp, FLineStrp, FLineStrp});
      line_.U8(1);
      line_.Uleb(1);
      line_.Uleb(f1);
      line_.Uleb(c.dirs.size());
      for (auto &d : c.dirs) put(d, f1);
      uint32_t di = r_.PickOf<uint32_t>({FUdata, FData1, FData2});
      bool swap = r_.Chance(1, 4);
      bool md5 = r_.Chance(1, 3), stamps = r_.Chance(1, 5);
      uint32_t f3 = r_.PickOf<uint32_t>({FUdata, FData4, FData8}), f4 = r_.PickOf<uint32_t>({FUdata, FData1, FData2, FData4, FData8});
      auto num = [&](uint64_t v, uint32_t f) {
        if (f == FUdata) line_.Uleb(v);
        else line_.N(v, f == FData1 ? 1 : f == FData2 ? 2 : f == FData4 ? 4 : 8);
      };
      line_.U8(2 + md5 + 2 * stamps);
      line_.Uleb(swap ? 2 : 1);
      line_.Uleb(swap ? di : f2);
      line_.Uleb(swap ? 1 : 2);
      line_.Uleb(swap ? f2 : di);
      if (stamps) { line_.Uleb(3); line_.Uleb(f3); line_.Uleb(4); line_.Uleb(f4); }
      if (md5) { line_.Uleb(5); line_.Uleb(0x1e); }
      line_.Uleb(nfiles);
      for (size_t i = 0; i < nfiles; i++) {
        if (!swap) put(c.files[i].first, f2);
        if (di == FUdata) line_.Uleb(c.files[i].second);
        else line_.N(c.files[i].second, di == FData1 ? 1 : 2);
        if (swap) put(c.files[i].first, f2);
        if (stamps) { num(r_.Mag(40), f3); num(r_.Mag(30), f4); }
        if (md5) line_.N(r_.Next(), 8), line_.N(r_.Next(), 8);
      }
    }
    line_.Patch(hl, line_.size() - hl - 4, 4);
    auto ext = [&](const DBuf &b) { line_.U8(0); line_.Uleb(b.size()); line_.s += b.s; };
    for (int i = 0; i < c.late && c.seqs.size(); i++) {
      DBuf b;
      b.U8(3);
      b.Str(c.files[nfiles + i].first);
      b.Uleb(c.files[nfiles + i].second);
      b.Uleb(0);
      b.Uleb(0);
      ext(b);
    }
    for (auto &s : c.seqs) {
      uint64_t addr = 0;
      int64_t line = 1;
      uint32_t file = 1;
      bool first = true;
      for (size_t i = 0; i < s.size(); i++) {
        const Row &w = s[i];
        bool end = i + 1 == s.size();
        if (r_.Chance(1, 4)) line_.U8(6);                                        // negate_stmt
        if (r_.Chance(1, 4)) { line_.U8(5); line_.Uleb(r_.Mag(14)); }            // set_column
        if (r_.Chance(1, 10)) line_.U8(7);                                       // set_basic_block
        if (opcode_base > 10 && r_.Chance(1, 10)) line_.U8(r_.PickOf({10, 11}));  // prologue_end, epilogue_begin
        if (opcode_base > 12 && r_.Chance(1, 10)) { line_.U8(12); line_.Uleb(r_.Mag(9)); }
        if (opcode_base > 16 && r_.Chance(1, 10)) {  // opcodes of other producers (13-15: two-level line tables)
          int op = 16 + r_.Below(opcode_base - 16);
          line_.U8(op);
          for (int k = 0; k < lens[op - 1]; k++) line_.Uleb(r_.Mag(20));
        }
        if (r_.Chance(1, 20)) { DBuf b; b.U8(0x80 + r_.Below(8)); b.s.append(r_.Below(9), '\x05'); ext(b); }
        if (first || r_.Chance(1, 30)) {
          DBuf b;
          b.U8(2);
          b.U64(w.addr);
          ext(b);
          addr = w.addr;
          first = false;
        }
        if (!end) {
          if (file != w.file || r_.Chance(1, 20)) { line_.U8(4); line_.Uleb(w.file); file = w.file; }
          if (w.disc || r_.Chance(1, 20)) { DBuf b; b.U8(4); b.Uleb(w.disc); ext(b); }
        }
        uint64_t delta = w.addr - addr;
        int64_t dl = end ? 0 : static_cast<int64_t>(w.line) - line;
        if (delta % min_insn) {  // odd steps only this way
          uint64_t part = delta < 0x10000 && r_.Chance(1, 2) ? delta : delta % min_insn;
          line_.U8(9);
          line_.U16(part);
          delta -= part;
        } else if (delta && delta < 0x10000 && r_.Chance(1, 10)) {
          line_.U8(9);
          line_.U16(delta);
          delta = 0;
        }
        uint64_t ops = delta / min_insn, full = (255 - opcode_base) / line_range;
        if (!end && r_.Chance(1, 10)) {
          int64_t x = dl + r_.In(line_base, line_base + line_range - 1);
          line_.U8(3);
          line_.Sleb(x);
          dl -= x;
        }
        if (!end && (dl < line_base || dl >= line_base + line_range)) { line_.U8(3); line_.Sleb(dl); dl = 0; }
        bool special = !end && dl >= line_base && dl < line_base + line_range && !r_.Chance(1, 8);
        if (special && full && ops >= full && ops <= 2 * full && r_.Chance(3, 4)) { line_.U8(8); ops -= full; }
        if (special) {
          uint64_t op = (dl - line_base) + line_range * ops + opcode_base;
          if (op <= 255) {
            line_.U8(op);
            addr = w.addr;
            line = w.line;
            continue;
          }
        }
        while (full && ops >= full && r_.Chance(1, 3)) { line_.U8(8); ops -= full; }
        if (ops) { line_.U8(2); line_.Uleb(ops); }
        if (dl) { line_.U8(3); line_.Sleb(dl); }
        if (end) { line_.U8(0); line_.U8(1); line_.U8(1); }
        else line_.U8(1);
        addr = w.addr;
        line = w.line;
      }
    }
    line_.Patch(start, line_.size() - start - 4, 4);
  }

  std::string Emit() {
    for (size_t ci = 0; ci < cus.size(); ci++) {
      const Cu &c = cus[ci];
      uint64_t line_at = line_.size();
      size_t rng_start = rng_.size();
      if (c.version == 5) { rng_.U32(0); rng_.U16(5); rng_.U8(8); rng_.U8(0); rng_.U32(0); }
      DDie cu;
      cu.tag = TCu;
      cu.attrs.push_back(String(c, 0x25, "producer", true));
      cu.attrs.push_back(String(c, 0x03, c.files[c.version < 5 ? 1 : 0].first, true));
      cu.attrs.push_back(String(c, 0x1b, c.comp, true));
      cu.attrs.push_back({0x13, FData2, 0x21});
      cu.attrs.push_back({0x10, c.version < 4 ? FData4 : FSecOff, line_at});
      DRanges all;
      for (auto &n : c.fns) if (!fns[n.fn].discarded) all.insert(all.end(), n.r.begin(), n.r.end());
      if (all.size()) {
        cu.attrs.push_back({0x11, FAddr, c.base});
        if (all.size() == 1 && all[0].first == c.base) cu.attrs.push_back({0x12, FAddr, all[0].second});
        else cu.attrs.push_back({0x55, c.version < 4 ? FData4 : FSecOff, RangeList(c, all)});
      }
      Mixed(&cu);
      // Declarations in classes and namespaces, abstract instances, and definitions, in any order.
      std::vector<DDie> tops;
      for (size_t i = 0; i < fns.size(); i++) {
        const Fn &f = fns[i];
        if (f.cu != static_cast<int>(ci)) continue;
        if (f.decl_id >= 0) {
          DDie d;
          d.tag = TSub;
          d.id = f.decl_id;
          Names(c, f, &d);
          d.attrs.push_back(Int(c, 0x3b, f.d1));
          d.attrs.push_back({0x3c, c.version >= 4 ? FFlagPresent : FFlag, 1});
          Extras(c, &d);
          Mixed(&d);
          if (r_.Chance(1, 2)) d.kids.push_back(Var(c));
          DDie s;
          s.tag = r_.Chance(1, 2) ? TStruct : TNs;
          s.attrs.push_back(String(c, 0x03, "S" + std::to_string(i)));
          s.attrs.push_back(Int(c, 0x3b, Line()));
          s.kids.push_back(d);
          if (r_.Chance(1, 2)) s.kids.insert(s.kids.begin() + r_.Below(2), Var(c));
          tops.push_back(s);
        }
        if (f.abs_id >= 0) {
          DDie d;
          d.tag = TSub;
          d.id = f.abs_id;
          if (f.decl_id >= 0) d.attrs.push_back(Ref(c, 0x47, f.decl_id, true));
          else Names(c, f, &d);
          if (f.has_d2) d.attrs.push_back(Int(c, 0x3b, f.d2));
          d.attrs.push_back(Int(c, 0x20, r_.In(1, 3)));
          Extras(c, &d);
          Mixed(&d);
          if (r_.Chance(1, 2)) d.kids.push_back(Var(c));
          d.concrete = true;
          tops.push_back(d);
        }
      }
      DDie pu;
      if (c.partial) {
        pu.tag = 0x3c;
        pu.id = next_id_++;
        pu.attrs.push_back({0x10, c.version < 4 ? FData4 : FSecOff, line_at});
        pu.attrs.push_back(String(c, 0x1b, c.comp, true));
        if (r_.Chance(1, 2)) pu.attrs.push_back(String(c, 0x03, "<artificial>", true));
        Mixed(&pu);
        pu.kids = tops;
        tops.clear();
        DDie im;
        im.tag = 0x3d;
        DAttr a{0x18, FRefAddr};
        a.ref = pu.id;
        im.attrs.push_back(a);
        tops.push_back(im);
      }
      for (auto &n : c.fns) {
        const Fn &f = fns[n.fn];
        DDie d;
        d.tag = TSub;
        if (f.abs_id >= 0) {
          d.attrs.push_back(Ref(c, 0x31, f.abs_id, !c.partial));
        } else {
          if (f.decl_id >= 0) d.attrs.push_back(Ref(c, 0x47, f.decl_id, !c.partial));
          else Names(c, f, &d);
          if (f.has_d2) d.attrs.push_back(Int(c, 0x3b, f.d2));
        }
        Pcs(c, n.r, &d.attrs);
        Extras(c, &d);
        Mixed(&d);
        d.kids = Kids(c, ci, n);
        // A nested function (GNU C, Fortran) has its code elsewhere.
        DDie *outer = nullptr;
        if (!f.discarded && r_.Chance(1, 6))
          for (auto &t : tops) if (t.concrete) outer = &t;
        if (outer) { outer->kids.push_back(d); continue; }
        d.concrete = !f.discarded;
        tops.push_back(d);
      }
      if (r_.Chance(1, 2)) r_.Shuffle(tops);
      if (r_.Chance(1, 3)) tops.insert(tops.begin() + r_.Below(tops.size() + 1), Var(c));
      cu.kids = tops;

      auto unit = [&](const DDie &top, bool part) {
        size_t start = info_.size();
        info_.U32(0);
        info_.U16(c.version);
        if (c.version == 5) { info_.U8(part ? 3 : 1); info_.U8(8); info_.U32(abbrev_.size()); }
        else { info_.U32(abbrev_.size()); info_.U8(8); }
        std::map<std::string, int> abbrevs;
        DBuf ab;
        WriteDie(c, top, start, &abbrevs, &ab);
        if (r_.Chance(1, 4)) info_.N(0, 1 + r_.Below(3));  // padding
        info_.Patch(start, info_.size() - start - 4, 4);
        abbrev_.s += ab.s;
        abbrev_.U8(0);
      };
      bool after = r_.Chance(1, 2);
      if (c.partial && !after) unit(pu, true);
      unit(cu, false);
      if (c.partial && after) unit(pu, true);
      WriteLines(c);
      if (c.version == 5 && rng_.size() == rng_start + 12) rng_.s.resize(rng_start);  // no lists
      else if (c.version == 5) rng_.Patch(rng_start, rng_.size() - rng_start - 4, 4);
      // A type unit, as GCC writes them.
      if (c.version == 5 && r_.Chance(1, 4)) {
        size_t s2 = info_.size();
        uint32_t ao = abbrev_.size();
        abbrev_.Uleb(1); abbrev_.Uleb(0x41); abbrev_.U8(0); abbrev_.Uleb(0x13); abbrev_.Uleb(FData1); abbrev_.U16(0); abbrev_.U8(0);
        info_.U32(0); info_.U16(5); info_.U8(2); info_.U8(8); info_.U32(ao); info_.U64(0x1234); info_.U32(24);
        info_.U8(1); info_.U8(0x21);
        info_.Patch(s2, info_.size() - s2 - 4, 4);
      }
    }
    for (auto &f : fixes_) info_.Patch(f.at, die_at_[f.ref] - f.cu_start, f.n);
    Elf e;
    bool exec = lo >= 0x400000;
    e.type = exec ? ET_EXEC : ET_DYN;
    uint64_t seg = exec ? r_.PickOf<uint64_t>({0x400000, lo}) : 0;
    e.segs.push_back({PT_LOAD, PF_R | PF_X, 0, seg, hi - seg, hi - seg});
    e.segs.back().filesz = 0x100;
    ESec t;
    t.name = ".text";
    t.type = SHT_NOBITS;
    t.flags = SHF_ALLOC | SHF_EXECINSTR;
    t.addr = lo;
    t.data.assign(hi - lo, '\0');
    e.secs.push_back(t);
    auto add = [&](const char *n, const DBuf &b) {
      if (b.s.empty()) return;
      ESec s;
      s.name = n;
      s.data = b.s;
      e.secs.push_back(s);
    };
    if (!line_only) {
      add(".debug_info", info_);
      add(".debug_abbrev", abbrev_);
    }
    add(".debug_line", line_);
    add(".debug_ranges", ranges_);
    add(".debug_rnglists", rng_);
    add(".debug_str", str_);
    add(".debug_line_str", lstr_);
    return e.Build();
  }
};
}  // namespace vh
#endif
