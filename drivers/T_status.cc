// link: core prop
// Status consumers and providers used from several threads (C30), under ThreadSanitizer.
#include <atomic>
#include <mutex>
#include <thread>

#include "absl_shim.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_profile_generator.h"
#include "status_consumer_registry.h"
#include "status_provider.h"
#include "vrun.h"

using namespace vh;
namespace afdo = devtools_crosstool_autofdo;

namespace {
void Pause(uint64_t x) {
  switch (x % 5) {
    case 0: case 1: break;
    case 2: std::this_thread::yield(); break;
    case 3: for (volatile int i = 0; i < static_cast<int>(x % 997); i = i + 1) {} break;
    case 4: if (x % 7 == 0) usleep(x % 60); else std::this_thread::yield(); break;
  }
}
// A call of a consumer, as the consumer saw it.
struct Call { uint64_t begin, end; int consumer; bool start; const void *provider; std::thread::id by; };
struct Log {
  std::atomic<uint64_t> clock{0};
  std::mutex mu;
  std::vector<Call> calls;
  std::vector<int> destroyed;
};
class Recorder : public afdo::StatusConsumer {
 public:
  Recorder(Log *log, int id, uint64_t seed) : log_(log), id_(id), r_(seed) {}
  ~Recorder() override { log_->destroyed.push_back(id_); }
  void Start(afdo::StatusProvider &p) override { Note(true, &p); }
  void Stop() override { Note(false, nullptr); }
  int unguarded = 0;  // consumers rely on the registry's lock

 private:
  void Note(bool start, const void *p) {
    uint64_t b = log_->clock.fetch_add(1, std::memory_order_relaxed);
    unguarded++;
    Pause(r_.Next());
    uint64_t e = log_->clock.fetch_add(1, std::memory_order_relaxed);
    std::lock_guard<std::mutex> l(log_->mu);
    log_->calls.push_back({b, e, id_, start, p, std::this_thread::get_id()});
  }
  Log *log_;
  int id_;
  Rng r_;
};
}  // namespace

VPROP(C30_registry) {
  Rng &r = ctx.rng;
  Log log;
  struct Op { int kind; uint64_t begin = 0, end = 0; int consumer = -1; const void *provider = nullptr; std::thread::id by; };  // 0 register, 1 start, 2 stop
  int nt = r.In(2, 5), next = 0;
  std::vector<std::vector<Op>> ops(nt);
  std::vector<uint64_t> seeds(nt);
  std::vector<std::unique_ptr<afdo::DefaultStatusProvider>> providers;
  for (int t = 0; t < nt; t++) {
    seeds[t] = r.Next();
    for (int i = 0, n = r.In(1, 8); i < n; i++) {
      Op o{static_cast<int>(r.Below(3))};
      if (o.kind == 0) o.consumer = next++;
      if (o.kind == 1) { providers.push_back(std::make_unique<afdo::DefaultStatusProvider>("j")); o.provider = providers.back().get(); }
      ops[t].push_back(o);
    }
  }
  uint64_t base = r.Next();
  {
    afdo::StatusConsumerRegistry reg;
    // The threads meet only at the gate; ordering between operations comes from the registry alone.
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
      ts.emplace_back([&, t] {
        Rng q(seeds[t]);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
        for (auto &o : ops[t]) {
          Pause(q.Next());
          o.by = std::this_thread::get_id();
          std::unique_ptr<Recorder> c;
          if (o.kind == 0) c = std::make_unique<Recorder>(&log, o.consumer, base + o.consumer);
          o.begin = log.clock.fetch_add(1, std::memory_order_relaxed);
          if (o.kind == 0) reg.Register(std::move(c));
          else if (o.kind == 1) reg.Start(*static_cast<afdo::DefaultStatusProvider *>(const_cast<void *>(o.provider)));
          else reg.Stop();
          o.end = log.clock.fetch_add(1, std::memory_order_relaxed);
        }
      });
    for (auto &t : ts) t.join();
    ctx.Check(log.destroyed.empty(), "consumer deleted before its registry", [&] { return std::to_string(log.destroyed.size()); });
  }
  std::vector<int> gone = log.destroyed;
  std::sort(gone.begin(), gone.end());
  bool all = static_cast<int>(gone.size()) == next;
  for (size_t i = 0; i < gone.size(); i++) all = all && gone[i] == static_cast<int>(i);
  ctx.Check(all, "consumers are deleted with the registry", [&] { return std::to_string(gone.size()) + " of " + std::to_string(next); });
  std::sort(log.calls.begin(), log.calls.end(), [](auto &a, auto &b) { return a.begin < b.begin; });
  for (size_t i = 1; i < log.calls.size(); i++)
    ctx.Check(log.calls[i - 1].end < log.calls[i].begin, "two consumers are called at the same time", [&] { return std::to_string(log.calls[i].consumer); });
  std::vector<const Op *> reg_ops, notify;
  for (auto &t : ops) for (auto &o : t) (o.kind ? notify : reg_ops).push_back(&o);
  std::vector<std::pair<uint64_t, std::vector<int>>> seqs;
  uint64_t h = nt;
  size_t claimed = 0;
  for (auto *o : notify) {
    std::vector<int> got;
    uint64_t first = 0;
    for (auto &c : log.calls)
      if (c.by == o->by && c.begin > o->begin && c.begin < o->end) {
        if (got.empty()) first = c.begin;
        got.push_back(c.consumer);
        claimed++;
        ctx.Check(c.start == (o->kind == 1) && c.provider == o->provider, "consumer gets another call", [&] { return std::to_string(c.consumer); });
      }
    std::set<int> s(got.begin(), got.end());
    ctx.Check(s.size() == got.size(), "consumer called twice", [&] { return std::to_string(got.size()); });
    for (auto *g : reg_ops) {
      if (g->end < o->begin) ctx.Check(s.count(g->consumer), "registered consumer is not called", [&] { return std::to_string(g->consumer); });
      if (g->begin > o->end) ctx.Check(!s.count(g->consumer), "consumer called before it is registered", [&] { return std::to_string(g->consumer); });
    }
    seqs.push_back({got.empty() ? o->begin : first, got});
  }
  ctx.Check(claimed == log.calls.size(), "call without an operation", [&] { return std::to_string(log.calls.size() - claimed); });
  // The consumers only ever grow in number, and keep their order.
  std::sort(seqs.begin(), seqs.end());
  std::vector<int> prev;
  for (auto &[t, s] : seqs) {
    if (s.empty()) continue;
    ctx.Check(s.size() >= prev.size() && std::equal(prev.begin(), prev.end(), s.begin()), "consumers called out of order", [&] { return std::to_string(s.size()); });
    prev = s;
    for (int c : s) h = Mix(h, c);
    h = Mix(h, 77);
  }
  ctx.Count("calls", log.calls.size());
  ctx.Count("operations", notify.size() + reg_ops.size());
  int overlap = 0;
  for (auto *a : notify) for (auto &t : ops) for (auto &b : t) overlap += &b != a && b.begin < a->end && a->begin < b.end;
  ctx.Count("overlapping_pairs", overlap);
  if (!log.calls.empty()) ctx.Nontrivial(h);
  ctx.Sample([&] { return std::to_string(nt) + " threads, " + std::to_string(next) + " consumers, " + std::to_string(log.calls.size()) + " calls, " + std::to_string(overlap) + " overlapping pairs"; });
}

namespace {
// Polls the status from a thread of its own while it is started, as a server would.
class Poller : public afdo::StatusConsumer {
 public:
  void Start(afdo::StatusProvider &p) override {
    polls = backwards = outside = bad_job = 0;
    starts++;
    jobs.clear();
    first_done = p.IsDone();
    stop_ = false;
    thread_ = std::thread([this, &p] {
      int last = 0;
      for (bool more = true; more;) {
        more = !stop_.load(std::memory_order_relaxed);
        int q = p.GetProgress();
        if (q < last) backwards++;
        if (q < 0 || q > 100) outside++;
        last = q;
        std::string j = p.GetJob();
        jobs.insert(j);
        if (j.rfind("generate propeller profiles", 0) != 0) bad_job++;
        done = p.IsDone();
        progress = q;
        seen.insert(q);
        polls++;
        Pause(polls);
      }
    });
  }
  void Stop() override {
    stops++;
    stop_ = true;
    if (thread_.joinable()) thread_.join();
  }
  int polls = 0, backwards = 0, outside = 0, bad_job = 0, starts = 0, stops = 0, progress = 0;
  bool done = false, first_done = false;
  std::set<std::string> jobs;
  std::set<int> seen;

 private:
  std::atomic<bool> stop_{false};
  std::thread thread_;
};
}  // namespace
VPROP(C30_poll) {
  Rng &r = ctx.rng;
  static Poller *poller = [] {
    auto p = std::make_unique<Poller>();
    Poller *q = p.get();
    afdo::StatusConsumerRegistry::GetInstance().Register(std::move(p));
    return q;
  }();
  poller->starts = poller->stops = 0;
  poller->seen.clear();
  ProgOptions po;
  po.max_funcs = 8;
  for (int i = 0; i < 20; i++) po.build_id += static_cast<char>(r.Below(256));
  Prog p = GenProg(ctx, po);
  Run u = GenRun(ctx, p, po.build_id, 20, false);
  afdo::PropellerOptions o;
  o.set_binary_name(r.Chance(1, 10) ? ctx.Tmp("missing") : p.path);
  o.set_cluster_out_name(ctx.Tmp("cc"));
  o.set_http(true);
  WriteFile(ctx.Tmp("perf"), u.File(0, u.samples.size()));
  o.add_input_profiles()->set_name(r.Chance(1, 10) ? ctx.Tmp("missing") : ctx.Tmp("perf"));
  auto st = afdo::GeneratePropellerProfiles(o);
  auto show = [&] { return st.ToString() + " after " + std::to_string(poller->polls) + " polls, progress " + std::to_string(poller->progress); };
  ctx.Check(poller->starts == 1 && poller->stops == 1, "consumer is started and stopped once", show);
  ctx.Check(!poller->first_done, "done before anything is done", show);
  ctx.Check(!poller->backwards, "progress goes back", show);
  ctx.Check(!poller->outside, "progress outside its range", show);
  ctx.Check(!poller->bad_job, "job is not named", show);
  ctx.Check(poller->done == st.ok() && (poller->progress == 100) == st.ok(), "state at the end", show);
  ctx.Count("polls", poller->polls);
  ctx.Count("states_seen", poller->seen.size());
  uint64_t h = HashStr(ReadFile(ctx.Tmp("cc")));
  for (int s : poller->seen) h = Mix(h, s);
  ctx.Nontrivial(h);
  for (auto &f : {p.path, ctx.Tmp("cc"), ctx.Tmp("perf")}) unlink(f.c_str());
  ctx.Sample([&] { std::string s; for (int x : poller->seen) s += " " + std::to_string(x); return "progress seen:" + s; });
}

// The registry of the process is there once, whoever asks first.
VPROP(C30_first) {
  Rng &r = ctx.rng;
  static const afdo::StatusConsumerRegistry *before = nullptr;  // of an earlier case
  int nt = r.In(2, 8);
  std::atomic<int> ready{0};
  std::vector<const afdo::StatusConsumerRegistry *> got(nt);
  std::vector<uint64_t> wait(nt);
  for (auto &w : wait) w = r.Next();
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; t++)
    ts.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      if (t) Pause(wait[t]);
      got[t] = &afdo::StatusConsumerRegistry::GetInstance();
    });
  for (auto &t : ts) t.join();
  for (auto *g : got) ctx.Check(g == got[0] && (!before || g == before), "several registries", [&] { return std::to_string(nt) + " threads"; });
  ctx.Count(before ? "later_uses" : "first_uses");
  before = got[0];
  uint64_t h = nt;
  for (auto w : wait) h = Mix(h, w);
  ctx.Nontrivial(h);
}
