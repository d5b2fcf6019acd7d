// What the address map and the control flow graphs of a generated program must be.
#ifndef VERIF_VMAPPER_H_
#define VERIF_VMAPPER_H_
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_statistics.h"
#include "vbbmap.h"
#include "vcommon.h"

namespace {
using namespace vh;
namespace afdo = devtools_crosstool_autofdo;
struct H { int f, b; bool operator==(const H &o) const { return f == o.f && b == o.b; } bool operator<(const H &o) const { return f != o.f ? f < o.f : b < o.b; } };

// The functions a mapper must have, and its lookups.
struct MapModel {
  const Prog *p;
  std::set<int> sel;
  std::vector<H> handles;
  uint64_t dup = 0, hot = 0, noname = 0;
  const PBlock &B(const H &h) const { return p->funcs[h.f].bbs[h.b]; }
  void Build(const std::set<uint64_t> *hot_addresses, bool text_only) {
    auto &fs = p->funcs;
    for (auto &f : fs) noname += f.names.empty();
    if (hot_addresses) {
      for (uint64_t a : *hot_addresses)
        for (size_t i = 0; i < fs.size(); i++)
          if (a >= fs[i].addr && a < fs[i].end()) sel.insert(i);
      hot = sel.size();
    } else {
      for (size_t i = 0; i < fs.size(); i++) sel.insert(i);
    }
    std::set<int> named;
    for (int i : sel)
      if (!fs[i].names.empty() && (!text_only || fs[i].OutSec() == ".text")) named.insert(i);
    std::map<std::string, std::vector<int>> by_name;
    for (int i : named) for (auto &n : fs[i].names) by_name[n].push_back(i);
    sel = named;
    for (auto &[n, v] : by_name) {
      if (v.size() < 2) continue;
      dup += v.size() - 1;
      bool same = n.find(".__uniq.") != std::string::npos;
      auto shape = [&](int i) {
        std::vector<std::pair<uint64_t, uint64_t>> x;
        for (auto &b : fs[i].bbs) x.push_back({b.addr - fs[i].addr, b.size});
        return x;
      };
      for (int i : v) same = same && shape(i) == shape(v[0]);
      for (int i : v) if (!same || i != v[0]) sel.erase(i);
    }
    for (int i : sel) for (size_t b = 0; b < fs[i].bbs.size(); b++) handles.push_back({i, static_cast<int>(b)});
  }
  int Find(uint64_t a, bool to) const {
    int in = -1, empty = -1;
    for (size_t i = 0; i < handles.size(); i++) {
      const PBlock &b = B(handles[i]);
      if (a >= b.addr && a < b.end()) in = i;
      if (b.addr == a && !b.size) {
        // Of empty blocks there, those of the last function count, the first of them.
        if (empty < 0 || handles[empty].f != handles[i].f) empty = i;
      }
    }
    if (!to) return in;
    if (in >= 0 && B(handles[in]).addr != a) return in;
    if (in >= 0) return empty >= 0 && handles[empty].f == handles[in].f ? empty : in;
    return empty;
  }
  bool Falls(int from, int to) const {
    if (from == to) return true;
    if (handles[from].f != handles[to].f || from > to) return false;
    for (int i = from; i < to; i++) if (!B(handles[i]).ft) return false;
    return true;
  }
  uint64_t Addr(Rng &r) const {
    if (handles.empty() || r.Chance(1, 12)) return r.Chance(1, 3) ? ~0ull : p->lo + r.Below(p->hi - p->lo + 16);
    const PBlock &b = B(handles[r.Below(handles.size())]);
    switch (r.Below(5)) {
      case 0: case 1: return b.addr;
      case 2: return b.end();
      case 3: return b.size >= 4 ? b.end() - 4 : b.addr;
      default: return b.addr + (p->arm ? r.Below(b.size / 4 + 1) * 4 : r.Below(b.size + 1));
    }
  }
  // Where branches start: the end of a block or a call inside.
  uint64_t From(Rng &r) const {
    if (handles.empty() || r.Chance(1, 10)) return Addr(r);
    for (int k = 0; k < 9; k++) {
      const PBlock &b = B(handles[r.Below(handles.size())]);
      if (!b.size) continue;
      if (p->arm) return b.addr + 4 * (r.Chance(2, 3) ? b.size / 4 - 1 : r.Below(b.size / 4));
      return b.addr + (r.Chance(2, 3) ? b.size - 1 : r.Below(b.size));
    }
    return Addr(r);
  }
  std::string Show() const {
    std::string s;
    for (auto &h : handles) {
      const PBlock &b = B(h);
      s += " " + std::to_string(h.f) + "#" + std::to_string(h.b) + "@" + Hex(b.addr) + "+" + std::to_string(b.size) + (b.ft ? "f" : "") + (b.ret ? "r" : "");
    }
    return s;
  }
};

struct Setup {
  Prog prog;
  MapModel model;
  std::unique_ptr<afdo::BinaryContent> content;
  std::unique_ptr<afdo::BinaryAddressMapper> mapper;
  afdo::PropellerStats stats;
  bool ok = false;
};
// Builds a program and its mapper, and checks which functions it has.
void MakeSetup(Ctx &ctx, Setup *s, const ProgOptions &o, bool use_hot) {
  Rng &r = ctx.rng;
  s->prog = GenProg(ctx, o);
  s->model.p = &s->prog;
  std::set<uint64_t> hot;
  if (use_hot)
    for (int i = 0, n = r.Below(8); i < n; i++) {
      if (s->prog.funcs.empty()) break;
      auto &f = s->prog.funcs[r.Below(s->prog.funcs.size())];
      hot.insert(r.PickOf<uint64_t>({f.addr, f.end(), f.end() - 1, f.addr - 1, f.bbs[r.Below(f.bbs.size())].end(), s->prog.lo + r.Below(s->prog.hi - s->prog.lo + 8)}));
    }
  bool text_only = r.Chance(2, 3);
  afdo::PropellerOptions opt;
  if (!text_only || r.Chance(1, 2)) opt.set_filter_non_text_functions(text_only);
  auto c = afdo::GetBinaryContent(s->prog.path);
  if (!ctx.Check(c.ok(), "binary read", [&] { return std::string(c.status().message()); })) return;
  s->content = std::move(*c);
  absl::flat_hash_set<uint64_t> h(hot.begin(), hot.end());
  auto m = afdo::BuildBinaryAddressMapper(opt, *s->content, s->stats, use_hot ? &h : nullptr);
  if (!ctx.Check(m.ok() == !s->prog.funcs.empty(), "mapper built", [&] { return m.ok() ? "from a binary without address map" : std::string(m.status().message()); })) return;
  if (!m.ok()) return;
  s->mapper = std::move(*m);
  s->model.Build(use_hot ? &hot : nullptr, text_only);
  s->ok = true;
}
using EdgeKey = std::pair<H, H>;
struct MEdge { int64_t weight = 0; std::set<int> kinds; };
struct CfgModel {
  std::map<EdgeKey, MEdge> edges;
  int64_t dubious = 0, branch_weight = 0, recorded = 0, total = 0;
  size_t edges_created = 0;
  void Add(const MapModel &w, const std::map<std::pair<uint64_t, uint64_t>, int64_t> &br, const std::map<std::pair<uint64_t, uint64_t>, int64_t> &ft) {
    std::map<std::pair<int, int>, int64_t> fall;
    for (auto &[b, c] : br) {
      recorded++;
      int f = w.Find(b.first, false), t = w.Find(b.second, true);
      if (t < 0) continue;
      bool start = w.B(w.handles[t]).addr == b.second;
      bool fret = f < 0 || w.B(w.handles[f]).ret || w.handles[f].f != w.handles[t].f;
      bool func = w.p->funcs[w.handles[t].f].addr == b.second;
      if (start && !func && fret && w.handles[t].b > 0) {
        // A return to behind a call that ends its block: the block of the call is the target.
        fall[{t - 1, t}] += c;
        --t;
        start = w.B(w.handles[t]).addr == b.second;
      }
      if (f < 0) continue;
      if (!w.B(w.handles[f]).ret && !start) dubious += c;
      int kind = func ? 1 : !start || w.B(w.handles[f]).ret ? 2 : 0;
      auto &e = edges[{w.handles[f], w.handles[t]}];
      e.weight += c;
      e.kinds.insert(kind);
      branch_weight += c;
      total += c;
    }
    edges_created = edges.size();
    for (auto &[x, c] : ft) {
      int f = w.Find(x.first, true), t = w.Find(x.second, false);
      if (f >= 0 && t >= 0) fall[{f, t}] += c;
    }
    for (auto &[x, c] : fall) {
      if (x.first == x.second || !w.Falls(x.first, x.second)) continue;
      for (int i = x.first; i < x.second; i++) {
        auto &e = edges[{w.handles[i], w.handles[i + 1]}];
        e.weight += c;
        if (e.kinds.empty()) e.kinds.insert(0);
        total += c;
      }
    }
  }
  static int64_t Freq(const std::map<EdgeKey, std::pair<int64_t, int>> &es, const H &h) {
    int64_t call = 0, ret = 0, out = 0, in = 0;
    for (auto &[k, e] : es) {
      if (k.first == h) { if (e.second == 1) call = std::max(call, e.first); else out += e.first; }
      if (k.second == h) { if (e.second == 2) ret = std::max(ret, e.first); else in += e.first; }
    }
    return std::max({call, ret, out, in});
  }
};
}  // namespace
#endif
