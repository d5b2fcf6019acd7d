// What a source-level profile is to hold, from functions, inline stacks and samples.
#ifndef VERIF_VATTRIB_H_
#define VERIF_VATTRIB_H_
#include "vcommon.h"
#include "vsym.h"
#include "llvm/IR/DebugInfoMetadata.h"

namespace vh {
struct Fn {
  std::string name;
  uint64_t addr, size;
  std::vector<std::string> aliases;
};
inline const Fn *FnAt(const std::vector<Fn> &fns, uint64_t va) {
  for (auto &f : fns)
    if (va >= f.addr && va - f.addr < f.size) return &f;
  return nullptr;
}
inline std::string CanonName(const std::string &policy, std::string n) {
  if (policy == "none") return n;
  if (policy == "all") {
    if (n[0] == '.') return n;
    return n.substr(0, n.find('.'));
  }
  // Only ".cold" and ".llvm.<something>" are stripped by "selected" for the names generated here, and ".__part.N".
  auto i = n.rfind(".cold");
  if (i != std::string::npos) n.erase(i, 5);
  for (const char *s : {".llvm.", ".__part."}) {
    i = n.rfind(s);
    if (i == std::string::npos) continue;
    auto d = n.find('.', i + strlen(s));
    n.erase(i, d == std::string::npos ? d : d - i);
  }
  return n;
}

struct Attrib {
  std::vector<Fn> fns;
  std::function<const afdo::SourceStack *(uint64_t)> stack;  // nullptr: no debug information
  bool lbr = true, multiply = true, enc = false, fs = false, base_only = false;
  std::string policy = "selected";
  double frac = 0;
  bool narrow = false;  // positions as the file formats hold them: 16 bits of line offset
  // Samples, by address of the binary; the total counts what is outside all functions too.
  std::map<uint64_t, uint64_t> addrs;
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> ranges, branches;

  struct TKey {
    int obj;
    std::vector<std::pair<uint64_t, std::string>> path;
    uint64_t off;
    std::string target;
    bool operator<(const TKey &o) const { return std::tie(obj, path, off, target) < std::tie(o.obj, o.path, o.off, o.target); }
  };
  // Results.
  MProf want;
  std::map<TKey, std::vector<uint64_t>> targets;
  std::map<std::string, int> obj_of, final_of;
  std::vector<int> rep;
  std::map<std::string, uint64_t> agg;
  unsigned __int128 total = 0;
  int64_t thr = 0;
  uint64_t attributed = 0;

  int Find(int i) { return rep[i] == i ? i : rep[i] = Find(rep[i]); }
  uint64_t Offset(const afdo::SourceInfo &i) const {
    uint32_t d = i.discriminator;
    if (fs ? base_only : enc) d = llvm::DILocation::getBaseDiscriminatorFromDiscriminator(d, false);
    return (static_cast<uint64_t>((i.line - i.start_line) & (narrow ? 0xffff : ~0u)) << 32) | d;
  }
  bool Emitted(const Fn &f) { return static_cast<int64_t>(agg[CanonName(policy, f.name)]) > thr; }
  void Compute() {
    std::vector<MSym> objs;
    auto dup = [&](const afdo::SourceInfo &i) -> uint64_t {
      if (fs || !multiply) return 1;
      return llvm::DILocation::getDuplicationFactorFromDiscriminator(i.discriminator);
    };
    auto bad = [](const afdo::SourceInfo &i) { return i.start_line == 0 || i.line == 0; };
    std::map<const Fn *, std::map<uint64_t, uint64_t>> addr_cnt;
    std::map<const Fn *, std::vector<std::tuple<uint64_t, uint64_t, uint64_t>>> frng, fbr;
    if (!ranges.empty())
      for (auto &[k, c] : ranges) total += static_cast<unsigned __int128>(c) * (1 + k.second - k.first);
    else
      for (auto &[k, c] : addrs) total += c;
    thr = static_cast<int64_t>(static_cast<int64_t>(total) * frac);
    if (thr < 10) thr = 10;
    for (auto &[a, c] : addrs)
      if (auto *f = FnAt(fns, a)) addr_cnt[f][a] += c;
    for (auto &[k, c] : ranges)
      if (auto *f = FnAt(fns, k.first)) frng[f].push_back({k.first, k.second, c});
    for (auto &[k, c] : branches)
      if (auto *f = FnAt(fns, k.first)) fbr[f].push_back({k.first, k.second, c});
    for (auto &f : fns) {
      uint64_t c = 0;
      if (!frng[&f].empty())
        for (auto &[b, e, k] : frng[&f]) c += k * (1 + e - b);
      else
        for (auto &[a, k] : addr_cnt[&f]) c += k;
      agg[CanonName(policy, f.name)] += c;
    }
    for (auto &f : fns)
      if (Emitted(f)) {
        obj_of[f.name] = objs.size();
        for (auto &a : f.aliases) obj_of[a] = objs.size();
        objs.push_back({});
      }
    for (auto &f : fns) {
      if (!Emitted(f)) continue;
      int oi = obj_of[f.name];
      auto walk = [&](const afdo::SourceStack &st, uint64_t c, std::vector<std::pair<uint64_t, std::string>> *path) -> MSym * {
        MSym *s = &objs[oi];
        s->total += c;
        for (int i = st.size() - 1; i > 0; i--) {
          if (bad(st[i])) break;
          std::pair<uint64_t, std::string> k{Offset(st[i]), st[i - 1].func_name};
          if (path) path->push_back(k);
          s = &s->calls[k];
          s->total += c;
        }
        return s;
      };
      for (uint64_t a = f.addr; a < f.addr + f.size; a++) {
        auto *st = stack(a);
        if (!st) continue;
        MSym *s = walk(*st, 0, nullptr);
        if (!bad((*st)[0])) s->pos[Offset((*st)[0])].num_inst++;
      }
      std::map<uint64_t, uint64_t> counts;
      if (lbr) {
        if (frng[&f].empty()) continue;
        for (auto &[b, e, c] : frng[&f])
          for (uint64_t a = b; a <= e && a < f.addr + f.size; a++) counts[a] += c;
      } else {
        counts = addr_cnt[&f];
      }
      for (auto &[a, c] : counts) {
        auto *st = stack(a);
        if (!st) continue;
        uint64_t k = c * dup((*st)[0]);
        MSym *s = walk(*st, k, nullptr);
        attributed++;
        if (bad((*st)[0])) continue;
        MPos &p = s->pos[Offset((*st)[0])];
        p.count = std::max(p.count, k);
      }
      for (auto &[b, t, c] : fbr[&f]) {
        const Fn *callee = nullptr;
        for (auto &g : fns)
          if (g.addr == t) callee = &g;
        if (!callee || !Emitted(*callee)) continue;
        objs[obj_of[callee->name]].head += c;
        auto *st = stack(b);
        if (!st) continue;
        std::vector<std::pair<uint64_t, std::string>> path;
        MSym *s = walk(*st, 0, &path);
        if (bad((*st)[0])) continue;
        std::string tn = CanonName(policy, callee->name);
        s->pos[Offset((*st)[0])].targets[tn] = 0;
        targets[{oi, path, Offset((*st)[0]), tn}].push_back(c);
      }
    }
    // Join the split parts and the aliases.
    rep.resize(objs.size());
    for (size_t i = 0; i < rep.size(); i++) rep[i] = i;
    for (auto &[nm, o] : obj_of) {
      auto c = CanonName(policy, nm);
      auto it = final_of.find(c);
      if (it == final_of.end()) final_of[c] = o;
      else rep[Find(o)] = Find(it->second);
    }
    std::map<int, MSym> merged;
    for (size_t i = 0; i < objs.size(); i++) MergeSym(merged[Find(i)], objs[i]);
    for (auto &[nm, o] : final_of) want[nm] = merged[Find(o)];
  }
  // Several branches from one source position to one target: any aggregate
  // between the least of them and their sum is accepted. Both profiles get the
  // least where that is so.
  void Settle(MProf *w_prof, MProf *g_prof) {
    for (auto &[k, cs] : targets) {
      (void)cs;
      for (auto &[nm, o] : final_of) {
        if (Find(o) != Find(k.obj)) continue;
        // lo/hi over the objects joined into this one.
        uint64_t lo = 0, hi = 0;
        for (auto &[k2, c2] : targets)
          if (Find(k2.obj) == Find(k.obj) && k2.path == k.path && k2.off == k.off && k2.target == k.target) {
            lo += *std::min_element(c2.begin(), c2.end());
            for (auto c : c2) hi += c;
          }
        auto drill = [&](MProf &p) -> uint64_t * {
          auto it = p.find(nm);
          if (it == p.end()) return nullptr;
          MSym *s = &it->second;
          for (auto &e : k.path) {
            auto c = s->calls.find(e);
            if (c == s->calls.end()) return nullptr;
            s = &c->second;
          }
          auto pi = s->pos.find(k.off);
          if (pi == s->pos.end()) return nullptr;
          auto ti = pi->second.targets.find(k.target);
          return ti == pi->second.targets.end() ? nullptr : &ti->second;
        };
        uint64_t *w = drill(*w_prof), *g = drill(*g_prof);
        if (w) *w = lo;
        if (w && g && *g >= lo && *g <= hi) *g = lo;
      }
    }
  }
};
}  // namespace vh
#endif
