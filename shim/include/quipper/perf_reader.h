// Stand-in for quipper's PerfReader/PerfParser/ArmSpeDecoder: reads either a
// serialized PerfDataProto prefixed with "VPERFPB1" or a real perf.data file
// (PERFILE2, the record types autofdo looks at).
#ifndef VSHIM_QUIPPER_H_
#define VSHIM_QUIPPER_H_
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "perf_data.pb.h"

namespace quipper {
enum PerfEventTypes { PERF_RECORD_MMAP = 1, PERF_RECORD_LOST = 2, PERF_RECORD_COMM = 3, PERF_RECORD_EXIT = 4, PERF_RECORD_FORK = 7,
  PERF_RECORD_SAMPLE = 9, PERF_RECORD_MMAP2 = 10, PERF_RECORD_AUX = 11, PERF_RECORD_AUXTRACE = 71, PERF_RECORD_TIME_CONV = 79 };
enum { PERF_BR_SPEC_NA = 0, PERF_BR_SPEC_WRONG_PATH = 1, PERF_BR_NON_SPEC_CORRECT_PATH = 2, PERF_BR_SPEC_CORRECT_PATH = 3 };

class PerfReader {
 public:
  bool ReadFile(const std::string &name) {
    FILE *f = fopen(name.c_str(), "rb"); if (!f) return false;
    std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f); return ReadFromString(s);
  }
  bool ReadFromPointer(const char *p, size_t n) { return ReadFromString(std::string(p, n)); }
  bool ReadFromString(const std::string &s) {
    proto_.Clear();
    if (s.compare(0, 8, "VPERFPB1") == 0) {
      PerfDataProto all; if (!all.ParseFromArray(s.data() + 8, s.size() - 8)) return false;
      *proto_.mutable_build_ids() = all.build_ids();
      for (auto &e : *all.mutable_events()) AddEvent(std::move(e));
      return true;
    }
    if (s.size() >= 104 && s.compare(0, 8, "PERFILE2") == 0) return ReadPerfFile(s);
    return false;
  }
  void SetEventTypesToSkipWhenSerializing(const std::set<uint32_t> &t) { skip_ = t; }
  void SetSampleCallback(std::function<void(const PerfDataProto_SampleEvent &)> cb) { cb_ = std::move(cb); }
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent> &events() const { return proto_.events(); }
  google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent> *mutable_events() { return proto_.mutable_events(); }
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfBuildID> &build_ids() const { return proto_.build_ids(); }
  const PerfDataProto &proto() const { return proto_; }
  void GetFilenames(std::vector<std::string> *v) const { std::set<std::string> s; GetFilenamesAsSet(&s); v->assign(s.begin(), s.end()); }
  void GetFilenamesAsSet(std::set<std::string> *s) const {
    for (auto &e : proto_.events()) if (e.has_mmap_event() && !e.mmap_event().filename().empty()) s->insert(e.mmap_event().filename());
  }
  void GetFilenamesToBuildIDs(std::map<std::string, std::string> *m) const {
    for (auto &b : proto_.build_ids()) {
      std::string h; char t[4]; for (unsigned char c : b.build_id_hash()) { snprintf(t, 4, "%02x", c); h += t; }
      (*m)[b.filename()] = h;
    }
  }
 private:
  void AddEvent(PerfDataProto_PerfEvent &&e) {
    if (e.has_sample_event() && cb_) cb_(e.sample_event());
    uint32_t t = e.header().type(); if (t == PERF_RECORD_MMAP2) t = PERF_RECORD_MMAP;
    if (skip_.count(t)) return;
    *proto_.add_events() = std::move(e);
  }
  template <class T> static T Rd(const std::string &s, size_t o) { T v{}; if (o + sizeof(T) <= s.size()) memcpy(&v, s.data() + o, sizeof(T)); return v; }
  bool ReadPerfFile(const std::string &s) {
    uint64_t attr_size = Rd<uint64_t>(s, 16), attrs_off = Rd<uint64_t>(s, 24), data_off = Rd<uint64_t>(s, 40), data_size = Rd<uint64_t>(s, 48);
    uint64_t feat0 = Rd<uint64_t>(s, 72);
    if (!attr_size || data_off + data_size > s.size()) return false;
    uint64_t sample_type = Rd<uint64_t>(s, attrs_off + 24), read_format = Rd<uint64_t>(s, attrs_off + 32);
    uint64_t flags = Rd<uint64_t>(s, attrs_off + 40), brtype = Rd<uint64_t>(s, attrs_off + 72);
    bool id_all = (flags >> 18) & 1; (void)read_format;
    // With several attrs, samples carry PERF_SAMPLE_IDENTIFIER first.
    std::map<uint64_t, std::pair<uint64_t, uint64_t>> by_id; uint64_t attrs_size = Rd<uint64_t>(s, 32);
    for (uint64_t a = attrs_off; a + attr_size <= attrs_off + attrs_size && a + attr_size <= s.size(); a += attr_size) {
      uint64_t io = Rd<uint64_t>(s, a + attr_size - 16), isz = Rd<uint64_t>(s, a + attr_size - 8);
      for (uint64_t k = 0; k + 8 <= isz && io + k + 8 <= s.size(); k += 8) by_id[Rd<uint64_t>(s, io + k)] = {Rd<uint64_t>(s, a + 24), Rd<uint64_t>(s, a + 72)};
    }
    const uint64_t sample_type0 = sample_type, brtype0 = brtype;
    // features
    size_t fo = data_off + data_size;
    for (int bit = 0; bit < 64; ++bit) if ((feat0 >> bit) & 1) {
      uint64_t off = Rd<uint64_t>(s, fo), sz = Rd<uint64_t>(s, fo + 8); fo += 16;
      if (bit != 2) continue;
      for (size_t p = off; p + 8 <= off + sz && p + 8 <= s.size();) {
        uint16_t misc = Rd<uint16_t>(s, p + 4), size = Rd<uint16_t>(s, p + 6); if (size < 36 || p + size > s.size()) break;
        auto *b = proto_.add_build_ids(); b->set_misc(misc); b->set_pid(Rd<uint32_t>(s, p + 8));
        size_t n = 20; if (misc & (1 << 15)) { n = (unsigned char)s[p + 12 + 20]; if (n > 20) n = 20; }
        b->set_build_id_hash(s.substr(p + 12, n));
        b->set_filename(std::string(s.c_str() + p + 36, strnlen(s.c_str() + p + 36, size - 36))); p += size;
      }
    }
    for (size_t p = data_off; p + 8 <= data_off + data_size;) {
      uint32_t type = Rd<uint32_t>(s, p); uint16_t misc = Rd<uint16_t>(s, p + 4), size = Rd<uint16_t>(s, p + 6);
      if (size < 8 || p + size > data_off + data_size) return false;
      PerfDataProto_PerfEvent e; e.mutable_header()->set_type(type); e.mutable_header()->set_misc(misc); e.mutable_header()->set_size(size);
      size_t q = p + 8, end = p + size; bool keep = true; uint64_t aux = 0;
      PerfDataProto_SampleInfo info;
      sample_type = sample_type0;
      if (id_all && type != PERF_RECORD_SAMPLE && type < 64) {
        size_t t = end;
        if (sample_type & (1 << 16)) t -= 8;
        if (sample_type & (1 << 7)) { t -= 8; info.set_cpu(Rd<uint32_t>(s, t)); }
        if (sample_type & (1 << 9)) t -= 8;
        if (sample_type & (1 << 6)) { t -= 8; info.set_id(Rd<uint64_t>(s, t)); }
        if (sample_type & (1 << 2)) { t -= 8; info.set_sample_time_ns(Rd<uint64_t>(s, t)); e.set_timestamp(info.sample_time_ns()); }
        if (sample_type & (1 << 1)) { t -= 8; info.set_pid(Rd<uint32_t>(s, t)); info.set_tid(Rd<uint32_t>(s, t + 4)); }
      }
      switch (type) {
        case PERF_RECORD_MMAP: case PERF_RECORD_MMAP2: {
          auto *m = e.mutable_mmap_event(); m->set_pid(Rd<uint32_t>(s, q)); m->set_tid(Rd<uint32_t>(s, q + 4)); m->set_start(Rd<uint64_t>(s, q + 8));
          m->set_len(Rd<uint64_t>(s, q + 16)); m->set_pgoff(Rd<uint64_t>(s, q + 24)); size_t fn = q + 32 + (type == PERF_RECORD_MMAP2 ? 32 : 0);
          m->set_filename(std::string(s.c_str() + fn, strnlen(s.c_str() + fn, end - fn))); *m->mutable_sample_info() = info; break; }
        case PERF_RECORD_COMM: { auto *m = e.mutable_comm_event(); m->set_pid(Rd<uint32_t>(s, q)); m->set_tid(Rd<uint32_t>(s, q + 4)); *m->mutable_sample_info() = info; break; }
        case PERF_RECORD_FORK: case PERF_RECORD_EXIT: {
          auto *m = type == PERF_RECORD_FORK ? e.mutable_fork_event() : e.mutable_exit_event(); m->set_pid(Rd<uint32_t>(s, q)); m->set_ppid(Rd<uint32_t>(s, q + 4));
          m->set_tid(Rd<uint32_t>(s, q + 8)); m->set_ptid(Rd<uint32_t>(s, q + 12)); m->set_fork_time_ns(Rd<uint64_t>(s, q + 16)); *m->mutable_sample_info() = info; break; }
        case PERF_RECORD_SAMPLE: {
          auto *m = e.mutable_sample_event();
          sample_type = sample_type0; brtype = brtype0;
          if (sample_type & (1 << 16)) { auto it = by_id.find(Rd<uint64_t>(s, q)); if (it != by_id.end()) { sample_type = it->second.first; brtype = it->second.second; } }
          if (sample_type & (1 << 16)) q += 8;
          if (sample_type & 1) { m->set_ip(Rd<uint64_t>(s, q)); q += 8; }
          if (sample_type & 2) { m->set_pid(Rd<uint32_t>(s, q)); m->set_tid(Rd<uint32_t>(s, q + 4)); q += 8; }
          if (sample_type & 4) { m->set_sample_time_ns(Rd<uint64_t>(s, q)); e.set_timestamp(m->sample_time_ns()); q += 8; }
          if (sample_type & 8) q += 8;
          if (sample_type & (1 << 6)) q += 8;
          if (sample_type & (1 << 9)) q += 8;
          if (sample_type & (1 << 7)) q += 8;
          if (sample_type & (1 << 8)) q += 8;
          if (sample_type & (1 << 4)) return false;  // PERF_SAMPLE_READ not modelled
          if (sample_type & (1 << 5)) { uint64_t n = Rd<uint64_t>(s, q); q += 8 + 8 * n; }
          if (sample_type & (1 << 10)) { uint32_t n = Rd<uint32_t>(s, q); q += 4 + n; }
          if (sample_type & (1 << 11)) {
            uint64_t n = Rd<uint64_t>(s, q); q += 8; if (brtype & (1u << 17)) q += 8;
            for (uint64_t i = 0; i < n && q + 24 <= end; ++i, q += 24) {
              auto *b = m->add_branch_stack(); b->set_from_ip(Rd<uint64_t>(s, q)); b->set_to_ip(Rd<uint64_t>(s, q + 8));
              uint64_t f = Rd<uint64_t>(s, q + 16); b->set_mispredicted(f & 1); b->set_cycles((f >> 4) & 0xffff); b->set_type((f >> 20) & 15); b->set_spec((f >> 24) & 3);
            }
          }
          break; }
        case PERF_RECORD_AUXTRACE: { auto *m = e.mutable_auxtrace_event(); m->set_size(Rd<uint64_t>(s, q)); aux = m->size(); m->set_trace_data(s.substr(end, aux)); break; }
        default: keep = false;
      }
      if (keep) AddEvent(std::move(e));
      p += size + aux;
    }
    return true;
  }
  PerfDataProto proto_; std::set<uint32_t> skip_; std::function<void(const PerfDataProto_SampleEvent &)> cb_;
};

struct DSOInfo { std::string name; std::string build_id; };
struct ParsedEvent {
  struct DSOAndOffset {
    DSOInfo *dso_info_ = nullptr; uint64_t offset_ = 0;
    std::string dso_name() const { return dso_info_ ? dso_info_->name : std::string(); }
    std::string build_id() const { return dso_info_ ? dso_info_->build_id : std::string(); }
    uint64_t offset() const { return offset_; }
  };
  struct BranchEntry { bool predicted = false; DSOAndOffset from, to; uint32_t spec = 0; };
  PerfDataProto_PerfEvent *event_ptr = nullptr;
  DSOAndOffset dso_and_offset;
  std::vector<BranchEntry> branch_stack;
};
struct PerfParserOptions {};
class PerfParser {
 public:
  explicit PerfParser(PerfReader *r) : r_(r) {}
  PerfParser(PerfReader *r, const PerfParserOptions &) : r_(r) {}
  bool ParseRawEvents() {
    parsed_.clear(); maps_.clear();
    std::map<std::string, std::string> ids; r_->GetFilenamesToBuildIDs(&ids);
    for (auto &e : *r_->mutable_events()) {
      ParsedEvent pe; pe.event_ptr = &e;
      if (e.has_mmap_event()) {
        auto &m = e.mmap_event(); auto &d = dsos_[m.filename()]; if (!d) { d = std::make_unique<DSOInfo>(); d->name = m.filename(); auto it = ids.find(d->name); if (it != ids.end()) d->build_id = it->second; }
        maps_[m.pid()].push_back({m.start(), m.len(), m.pgoff(), d.get()});
      } else if (e.has_fork_event()) {
        uint32_t c = e.fork_event().pid(), p = e.fork_event().ppid(); if (c != p && !maps_.count(c) && maps_.count(p)) { auto cp = maps_[p]; maps_[c] = cp; }
      } else if (e.has_sample_event()) {
        auto &s = e.sample_event(); pe.dso_and_offset = Map(s.pid(), s.ip());
        for (auto &b : s.branch_stack()) { ParsedEvent::BranchEntry x; x.predicted = !b.mispredicted(); x.spec = b.spec(); x.from = Map(s.pid(), b.from_ip()); x.to = Map(s.pid(), b.to_ip()); pe.branch_stack.push_back(x); }
      }
      parsed_.push_back(std::move(pe));
    }
    return true;
  }
  const std::vector<ParsedEvent> &parsed_events() const { return parsed_; }
 private:
  struct M { uint64_t start, len, pgoff; DSOInfo *d; };
  ParsedEvent::DSOAndOffset Map(uint32_t pid, uint64_t a) {
    ParsedEvent::DSOAndOffset r;
    for (uint32_t p : {pid, 0xffffffffu}) {
      auto it = maps_.find(p); if (it == maps_.end()) continue;
      for (auto m = it->second.rbegin(); m != it->second.rend(); ++m)
        if (a >= m->start && a - m->start < m->len) { r.dso_info_ = m->d; r.offset_ = p == 0xffffffffu ? a - m->start : a - m->start + m->pgoff; return r; }
    }
    r.offset_ = a; return r;
  }
  PerfReader *r_; std::vector<ParsedEvent> parsed_; std::map<uint32_t, std::vector<M>> maps_; std::map<std::string, std::unique_ptr<DSOInfo>> dsos_;
};
inline const PerfDataProto_SampleInfo *GetSampleInfoForEvent(const PerfDataProto_PerfEvent &e) {
  if (e.has_mmap_event()) return &e.mmap_event().sample_info();
  if (e.has_comm_event()) return &e.comm_event().sample_info();
  if (e.has_fork_event()) return &e.fork_event().sample_info();
  if (e.has_exit_event()) return &e.exit_event().sample_info();
  return nullptr;
}
// Stand-in trace encoding: 48-byte little-endian records
// {u64 ip, u64 target, u64 timestamp, u64 context_id, u8 retired, u8 br_eret, u8 cond, u8 not_taken, u8 el1, u8 el2, 10 pad}.
class ArmSpeDecoder {
 public:
  struct Record {
    struct { bool retired = false, cond_not_taken = false; } event;
    struct { bool is_br_eret = false; struct { bool br_cond = false, br_indirect = false; } br_eret; } op;
    struct { uint64_t addr = 0; } ip, tgt_br_ip;
    struct { bool el1 = false, el2 = false; uint32_t id = 0; } context;
    uint64_t timestamp = 0;
  };
  ArmSpeDecoder(const std::string &d, bool) : d_(d) {}
  bool NextRecord(Record *r) {
    if (o_ + 48 > d_.size()) return false;
    const unsigned char *p = reinterpret_cast<const unsigned char *>(d_.data()) + o_; o_ += 48;
    uint64_t ctx; memcpy(&r->ip.addr, p, 8); memcpy(&r->tgt_br_ip.addr, p + 8, 8); memcpy(&r->timestamp, p + 16, 8); memcpy(&ctx, p + 24, 8); r->context.id = ctx;
    r->event.retired = p[32]; r->op.is_br_eret = p[33]; r->op.br_eret.br_cond = p[34]; r->event.cond_not_taken = p[35]; r->context.el1 = p[36]; r->context.el2 = p[37];
    return true;
  }
 private:
  const std::string d_; size_t o_ = 0;
};
}  // namespace quipper
#endif
