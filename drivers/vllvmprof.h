// Reads LLVM sample profiles with LLVM's own reader.
#ifndef VERIF_VLLVMPROF_H_
#define VERIF_VLLVMPROF_H_
#include "vsym.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/Support/VirtualFileSystem.h"

namespace vh {
namespace lsp = llvm::sampleprof;
inline MSym Prune(const MSym &s, bool *any) {
  MSym r = s;
  r.calls.clear();
  bool has = !s.pos.empty();
  for (auto &[k, c] : s.calls) {
    bool sub = false;
    MSym x = Prune(c, &sub);
    if (sub) { r.calls[k] = x; has = true; }
  }
  *any = has;
  return r;
}
// What a reader of the profile is to see: functions above the threshold, without
// inlined callees that hold no position.
inline MProf Expected(const MProf &p, uint64_t threshold) {
  MProf r;
  for (auto &[n, s] : p)
    if (s.total > threshold) { bool any; r[n] = Prune(s, &any); }
  return r;
}
inline MSym FromFS(const lsp::FunctionSamples &fs, int depth = 0) {
  MSym m;
  m.total = fs.getTotalSamples();
  m.head = fs.getHeadSamples();
  for (auto &[loc, rec] : fs.getBodySamples()) {
    MPos &p = m.pos[static_cast<uint64_t>(loc.LineOffset) << 32 | loc.Discriminator];
    p.count = rec.getSamples();
    p.num_inst = 1;
    for (auto &[t, c] : rec.getCallTargets()) p.targets[t.str()] = c;
  }
  for (auto &[loc, m2] : fs.getCallsiteSamples())
    for (auto &[id, sub] : m2) m.calls[{static_cast<uint64_t>(loc.LineOffset) << 32 | loc.Discriminator, id.str()}] = FromFS(sub, depth + 1);
  return m;
}
inline bool ReadDirect(const std::string &path, MProf *out, std::string *err, bool *fs = nullptr, std::set<std::string> *syms = nullptr, std::string *sections = nullptr) {
  llvm::LLVMContext C;
  lsp::FunctionSamples::ProfileIsFS = false;
  auto rd = lsp::SampleProfileReader::create(path, C, *llvm::vfs::getRealFileSystem(), lsp::FSDiscriminatorPass::PassLast);
  if (!rd) { *err = rd.getError().message(); return false; }
  if (std::error_code ec = (*rd)->read()) { *err = ec.message(); return false; }
  for (auto &[ctx, f] : (*rd)->getProfiles()) {
    bool any;
    (*out)[f.getFunction().str()] = Prune(FromFS(f), &any);
  }
  if (fs) *fs = lsp::FunctionSamples::ProfileIsFS;
  if (sections) { llvm::raw_string_ostream os(*sections); (*rd)->dumpSectionInfo(os); }
  if (syms)
    if (auto l = (*rd)->getProfileSymbolList()) {
      std::string t;
      llvm::raw_string_ostream os(t);
      l->dump(os);
      os.flush();
      std::istringstream is(t);
      for (std::string w; std::getline(is, w);) if (!w.empty() && w.rfind("=====", 0) != 0) syms->insert(w);
    }
  return true;
}
}  // namespace vh
#endif
