// A plain model of a source-level profile, and conversions from/to SymbolMap.
#ifndef VERIF_VSYM_H_
#define VERIF_VSYM_H_
#include <unordered_set>
#include "vcommon.h"
#include "source_info.h"
#include "symbol_map.h"

namespace vh {
namespace afdo = devtools_crosstool_autofdo;

inline const char *Intern(const std::string &s) {
  static auto *pool = new std::unordered_set<std::string>;
  return pool->insert(s).first->c_str();
}

struct MPos {
  uint64_t count = 0, num_inst = 0;
  std::map<std::string, uint64_t> targets;
  bool operator==(const MPos &o) const { return count == o.count && num_inst == o.num_inst && targets == o.targets; }
};
struct MSym {
  uint64_t total = 0, head = 0, ts = 0, incl = 0;
  std::string file;
  std::map<uint64_t, MPos> pos;
  std::map<std::pair<uint64_t, std::string>, MSym> calls;
};
using MProf = std::map<std::string, MSym>;

inline MSym FromSymbol(const afdo::Symbol &s) {
  MSym m;
  m.total = s.total_count;
  m.head = s.head_count;
  m.file = s.info.file_name;
  m.incl = s.total_count_incl;
  for (const auto &[off, p] : s.pos_counts) {
    MPos &mp = m.pos[off];
    mp.count = p.count;
    mp.num_inst = p.num_inst;
    for (const auto &[t, c] : p.target_map) mp.targets[t] = c;
  }
  for (const auto &[cs, sub] : s.callsites)
    m.calls[{cs.location, cs.callee_name ? cs.callee_name : "<null>"}] = FromSymbol(*sub);
  return m;
}
inline MProf FromMap(const afdo::SymbolMap &map) {
  MProf r;
  for (const auto &[n, s] : map.map()) r[n] = FromSymbol(*s);
  return r;
}

struct DiffOpt {
  bool head = true, num_inst = true, sub_head = false, file = false, incl = false;
};
// Empty when equal, else the path and the two values of the first difference.
inline std::string DiffSym(const MSym &a, const MSym &b, const DiffOpt &o, const std::string &path, int depth = 0) {
  auto ne = [&](const std::string &what, uint64_t x, uint64_t y) { return path + " " + what + ": want " + std::to_string(x) + " got " + std::to_string(y); };
  if (a.total != b.total) return ne("total", a.total, b.total);
  if (o.head && (depth == 0 || o.sub_head) && a.head != b.head) return ne("head", a.head, b.head);
  if (o.incl && a.incl != b.incl) return ne("total_incl", a.incl, b.incl);
  if (o.file && a.file != b.file) return path + " file: want " + a.file + " got " + b.file;
  for (auto &[off, p] : a.pos) {
    auto it = b.pos.find(off);
    if (it == b.pos.end()) return path + " position " + Hex(off) + " missing (want count " + std::to_string(p.count) + ")";
    if (p.count != it->second.count) return ne("count at " + Hex(off), p.count, it->second.count);
    if (o.num_inst && p.num_inst != it->second.num_inst) return ne("num_inst at " + Hex(off), p.num_inst, it->second.num_inst);
    if (p.targets != it->second.targets) {
      std::string r = path + " call targets at " + Hex(off) + ": want";
      for (auto &[t, c] : p.targets) r += " " + t + ":" + std::to_string(c);
      r += " got";
      for (auto &[t, c] : it->second.targets) r += " " + t + ":" + std::to_string(c);
      return r;
    }
  }
  for (auto &[off, p] : b.pos)
    if (!a.pos.count(off)) return path + " unexpected position " + Hex(off) + " count " + std::to_string(p.count);
  for (auto &[cs, s] : a.calls) {
    std::string sub = path + "@" + Hex(cs.first) + ":" + cs.second;
    auto it = b.calls.find(cs);
    if (it == b.calls.end()) return sub + " inlined callee missing";
    std::string d = DiffSym(s, it->second, o, sub, depth + 1);
    if (!d.empty()) return d;
  }
  for (auto &[cs, s] : b.calls)
    if (!a.calls.count(cs)) return path + "@" + Hex(cs.first) + ":" + cs.second + " unexpected inlined callee";
  return "";
}
inline std::string DiffProf(const MProf &a, const MProf &b, const DiffOpt &o = {}) {
  for (auto &[n, s] : a) {
    auto it = b.find(n);
    if (it == b.end()) return n + " missing from the profile";
    std::string d = DiffSym(s, it->second, o, n);
    if (!d.empty()) return d;
  }
  for (auto &[n, s] : b)
    if (!a.count(n)) return n + " unexpected in the profile";
  return "";
}

inline void MergeSym(MSym &a, const MSym &b) {
  a.total += b.total;
  a.head += b.head;
  for (auto &[off, p] : b.pos) {
    MPos &q = a.pos[off];
    q.count += p.count;
    q.num_inst += p.num_inst;
    for (auto &[t, c] : p.targets) q.targets[t] += c;
  }
  for (auto &[cs, s] : b.calls) MergeSym(a.calls[cs], s);
}

inline uint64_t HashSym(const MSym &s) {
  uint64_t h = Mix(s.total, s.head);
  for (auto &[off, p] : s.pos) {
    h = Mix(h, off * 31 + p.count);
    for (auto &[t, c] : p.targets) h = Mix(h, HashStr(t) + c);
  }
  for (auto &[cs, x] : s.calls) h = Mix(Mix(h, cs.first), HashStr(cs.second) ^ HashSym(x));
  return h;
}
inline uint64_t HashProf(const MProf &p) {
  uint64_t h = 7;
  for (auto &[n, s] : p) h = Mix(Mix(h, HashStr(n)), HashSym(s));
  return h;
}
inline std::string ShowSym(const MSym &s) {
  std::string r = "{total=" + std::to_string(s.total) + " head=" + std::to_string(s.head);
  for (auto &[off, p] : s.pos) {
    r += " " + std::to_string(off >> 32) + "." + std::to_string(off & 0xffffffff) + "=" + std::to_string(p.count);
    for (auto &[t, c] : p.targets) r += "(" + t + ":" + std::to_string(c) + ")";
  }
  for (auto &[cs, x] : s.calls) r += " [" + std::to_string(cs.first >> 32) + "." + std::to_string(cs.first & 0xffffffff) + ":" + cs.second + " " + ShowSym(x) + "]";
  return r + "}";
}
inline std::string ShowProf(const MProf &p) {
  std::string r;
  for (auto &[n, s] : p) r += n + ShowSym(s) + " ";
  return r;
}

struct GenOpt {
  int max_funcs = 6, max_depth = 3, max_pos = 5, max_calls = 3;
  int count_bits = 20;
  uint32_t max_line = 0xffff, max_disc = 0xffff;
  bool big_counts = false;
  std::vector<std::string> names;
  bool consistent_totals = true;  // total = sum of positions and inlined totals.
};
inline uint64_t GenOff(Rng &r, const GenOpt &o) {
  uint32_t line = r.Chance(1, 6) ? r.Below(static_cast<uint64_t>(o.max_line) + 1) : r.Below(std::min<uint32_t>(o.max_line, 20) + 1);
  uint32_t disc = r.Chance(1, 2) ? 0 : (r.Chance(1, 4) ? r.Below(static_cast<uint64_t>(o.max_disc) + 1) : r.Below(std::min<uint32_t>(o.max_disc, 6) + 1));
  return (static_cast<uint64_t>(line) << 32) | disc;
}
inline MSym GenSym(Rng &r, const GenOpt &o, int depth = 0) {
  MSym s;
  int np = r.Below(o.max_pos + 1);
  for (int i = 0; i < np; i++) {
    MPos &p = s.pos[GenOff(r, o)];
    p.count = r.Mag(o.count_bits);
    p.num_inst = 1;
    if (r.Chance(1, 3)) {
      int nt = 1 + r.Below(4);
      for (int j = 0; j < nt; j++) p.targets[r.Pick(o.names)] = r.Mag(o.count_bits);
    }
  }
  if (depth < o.max_depth) {
    int nc = r.Below(o.max_calls + 1);
    for (int i = 0; i < nc; i++) s.calls[{GenOff(r, o), r.Pick(o.names)}] = GenSym(r, o, depth + 1);
  }
  for (auto &[k, p] : s.pos) s.total += p.count;
  for (auto &[k, c] : s.calls) s.total += c.total;
  if (depth == 0) s.head = r.Mag(o.count_bits);
  return s;
}
inline MProf GenProf(Rng &r, const GenOpt &o) {
  MProf p;
  int n = 1 + r.Below(o.max_funcs);
  for (int i = 0; i < n; i++) p[r.Pick(o.names)] = GenSym(r, o);
  return p;
}
// Enters the profile through the interface the profile readers use.
inline void Populate(afdo::SymbolMap &map, const MProf &prof) {
  std::function<void(const char *, const MSym &, afdo::SourceStack)> rec = [&](const char *top, const MSym &s, afdo::SourceStack stack) {
    const char *fn = stack.empty() ? top : stack[0].func_name;
    // stack[0] is the frame of this function; its position is filled in below.
    auto at = [&](uint64_t off) {
      afdo::SourceStack st = stack;
      st[0].line = static_cast<uint32_t>(off >> 32);
      st[0].discriminator = static_cast<uint32_t>(off);
      return st;
    };
    (void)fn;
    for (auto &[off, p] : s.pos) {
      afdo::SourceStack st = at(off);
      if (p.num_inst > 1) {  // in two steps
        map.AddSourceCount(top, st, p.count / 3, 1);
        map.AddSourceCount(top, st, p.count - p.count / 3, p.num_inst - 1);
      } else {
        map.AddSourceCount(top, st, p.count, p.num_inst);
      }
      for (auto &[t, c] : p.targets) map.AddIndirectCallTarget(top, st, t, c);
    }
    for (auto &[cs, sub] : s.calls) {
      afdo::SourceStack st = at(cs.first);
      afdo::SourceInfo callee(Intern(cs.second), "", sub.file, 0, 0, 0);
      st.insert(st.begin(), callee);
      // An inlined callee exists even if nothing was counted in it.
      afdo::Symbol *inst = map.TraverseInlineStack(top, st, 0);
      if (inst) inst->head_count += sub.head;
      rec(top, sub, st);
    }
  };
  for (auto &[n, s] : prof) {
    map.AddSymbol(n);
    map.AddSymbolEntryCount(n, s.head);
    afdo::SourceStack st;
    st.push_back(afdo::SourceInfo(Intern(n), "", s.file, 0, 0, 0));
    rec(Intern(n), s, st);
  }
}
}  // namespace vh
#endif
