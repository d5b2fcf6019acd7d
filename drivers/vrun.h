// Perf data of simulated runs of a generated program.
#ifndef VERIF_VRUN_H_
#define VERIF_VRUN_H_
#include "vmapper.h"
#include "vperf.h"

namespace {
using BranchCounts = std::map<std::pair<uint64_t, uint64_t>, int64_t>;
struct Run {
  struct S { uint32_t pid; uint64_t ip; std::vector<std::pair<uint64_t, uint64_t>> stack; };  // newest first, runtime addresses
  struct M { uint32_t pid; uint64_t start, len, pgoff; };
  std::string id, name;
  std::vector<M> maps;
  std::vector<S> samples;
  std::vector<vh::SpeRec> spe;
  BranchCounts branches, falls;  // expected, in addresses of the binary
  int64_t events = 0;
  // The samples [from, to), as one perf data file.
  std::string File(size_t from, size_t to, bool with_spe = true) const {
    vh::PerfData d;
    d.BuildId(name, id);
    for (auto &m : maps) d.Mmap(m.pid, m.start, m.len, m.pgoff, name);
    for (size_t i = from; i < to; i++) d.Sample(samples[i].pid, samples[i].ip, samples[i].stack);
    if (with_spe && !spe.empty()) d.Aux(spe);
    return d.Str();
  }
};

// Executes the program at random: falls through blocks, jumps, calls and returns.
inline Run GenRun(vh::Ctx &ctx, const vh::Prog &p, const std::string &build_id, int max_samples, bool spe) {
  vh::Rng &r = ctx.rng;
  Run u;
  u.id = vh::RandHex(r, 0);
  for (unsigned char c : build_id) { char b[4]; snprintf(b, sizeof b, "%02x", c); u.id += b; }
  u.name = r.PickOf<std::string>({"/usr/bin/prog", "/opt/my prog", "prog", p.path});
  uint64_t lo = p.lo & ~0xfffull, hi = (p.hi + 0xfff) & ~0xfffull;
  int np = 1 + r.Below(2);
  std::vector<uint64_t> bias;
  for (int i = 0; i < np; i++) {
    uint64_t start = p.pie ? r.PickOf<uint64_t>({0x555555554000ull, 0x7f0000000000ull, 0x10000}) + (r.Below(16) << 12) : lo;
    bias.push_back(start - lo);
    u.maps.push_back({static_cast<uint32_t>(100 + i), start, hi - lo, 0x1000});
  }
  struct At { int f, b; };
  std::vector<At> all;
  for (size_t f = 0; f < p.funcs.size(); f++) for (size_t b = 0; b < p.funcs[f].bbs.size(); b++) all.push_back({static_cast<int>(f), static_cast<int>(b)});
  if (all.empty()) return u;
  int isz = p.arm ? 4 : 1;
  bool messy = r.Chance(1, 5), recurse = r.Chance(1, 3);
  for (int s = 0, ns = 1 + r.Below(max_samples); s < ns; s++) {
    int pi = r.Below(np);
    std::vector<std::pair<uint64_t, uint64_t>> st;  // oldest first
    At cur = all[r.Below(all.size())];
    uint64_t pc = p.funcs[cur.f].bbs[cur.b].addr;
    std::vector<std::pair<At, uint64_t>> calls;
    for (int i = 0, n = 1 + r.Below(r.Chance(1, 8) ? 32 : 10); i < n; i++) {
      auto &F = p.funcs[cur.f];
      // Run on to the block that branches.
      for (int k = r.Below(4); k > 0 && F.bbs[cur.b].ft && cur.b + 1 < static_cast<int>(F.bbs.size()) && F.bbs[cur.b].end() == F.bbs[cur.b + 1].addr; k--) pc = F.bbs[++cur.b].addr;
      while (!F.bbs[cur.b].size && cur.b + 1 < static_cast<int>(F.bbs.size())) pc = F.bbs[++cur.b].addr;
      auto &B = F.bbs[cur.b];
      if (!B.size || pc >= B.end()) { cur = all[r.Below(all.size())]; pc = p.funcs[cur.f].bbs[cur.b].addr; continue; }
      uint64_t from = B.end() - isz;
      At to = cur;
      uint64_t tpc;
      if (B.ret) {
        if (!calls.empty() && r.Chance(4, 5)) { to = calls.back().first; tpc = calls.back().second; calls.pop_back(); }
        else { to = all[r.Below(all.size())]; auto &tb = p.funcs[to.f].bbs[to.b]; tpc = tb.addr + (r.Chance(1, 2) ? r.Below(tb.size / isz + 1) * isz : 0); }
      } else if (r.Chance(1, 3)) {
        uint64_t words = (B.end() - pc) / isz;
        if (words && r.Chance(1, 2)) from = pc + r.Below(words) * isz;
        At back = cur;
        uint64_t bpc = from + isz;
        if (bpc >= B.end() && cur.b + 1 < static_cast<int>(F.bbs.size())) { back.b++; bpc = F.bbs[back.b].addr; }
        calls.push_back({back, bpc});
        to = {recurse && r.Chance(1, 2) ? cur.f : static_cast<int>(r.Below(p.funcs.size())), 0};
        tpc = p.funcs[to.f].bbs[0].addr;
      } else {
        to.b = r.Below(F.bbs.size());
        tpc = F.bbs[to.b].addr;
      }
      if (messy && r.Chance(1, 12)) { to = all[r.Below(all.size())]; auto &tb = p.funcs[to.f].bbs[to.b]; tpc = tb.addr + r.Below(tb.size / isz + 1) * isz; }
      st.push_back({from, tpc});
      cur = to;
      pc = tpc;
      if (cur.b < 0) cur.b = 0;
    }
    Run::S x{u.maps[pi].pid, pc + bias[pi], {}};
    bool have = false;
    uint64_t last = 0;
    // An empty block behind all code is at no address of a position independent binary's segment.
    auto seen = [&](uint64_t a) { return p.pie && a >= p.hi ? ~0ull : a; };
    for (auto &[f, t] : st) {
      u.branches[{seen(f), seen(t)}]++;
      u.events++;
      if (have && last != ~0ull && last <= seen(f)) u.falls[{last, seen(f)}]++;
      last = seen(t);
      have = true;
    }
    for (auto it = st.rbegin(); it != st.rend(); ++it) x.stack.push_back({it->first + bias[pi], it->second + bias[pi]});
    if (spe)
      for (auto &[f, t] : st) {
        vh::SpeRec y;
        y.ip = f + bias[pi]; y.target = t + bias[pi]; y.context = x.pid; y.timestamp = u.spe.size();
        if (r.Chance(1, 4)) { y.cond = true; y.not_taken = r.Chance(1, 2); }
        u.spe.push_back(y);
      }
    else u.samples.push_back(x);
  }
  return u;
}
}  // namespace
#endif
