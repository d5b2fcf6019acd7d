// Reads the cluster files of Propeller.
#ifndef VERIF_VCC_H_
#define VERIF_VCC_H_
#include "vcommon.h"

namespace {
std::vector<std::string> Split(const std::string &s, char c) {
  std::vector<std::string> v;
  std::string x;
  for (char ch : s) {
    if (ch == c) { v.push_back(x); x.clear(); }
    else x += ch;
  }
  if (c != '\n' || !x.empty()) v.push_back(x);
  return v;
}
// A function as a compiler reads it from the profile.
struct CcFunc {
  std::string module;
  bool has_module = false;
  std::vector<std::string> names;
  std::vector<std::vector<std::pair<int, int>>> clusters;  // block ids and clone numbers
  std::vector<std::vector<int>> paths;
  std::string section, score, entry_freq;
  std::vector<std::string> prof;
};
bool Number(const std::string &s, int *n) {
  if (s.empty() || s.size() > 9 || s.find_first_not_of("0123456789") != std::string::npos || (s.size() > 1 && s[0] == '0')) return false;
  *n = atoi(s.c_str());
  return true;
}
// Returns what is wrong, if anything.
std::string ParseCc(const std::string &text, bool v1, std::vector<CcFunc> *out) {
  auto lines = Split(text, '\n');
  if (!text.empty() && text.back() != '\n') return "no newline at the end";
  size_t i = 0;
  if (v1) { if (lines.empty() || lines[0] != "v1") return "no version"; i = 1; }
  std::string section, module;
  bool has_module = false;
  for (; i < lines.size(); i++) {
    const std::string &l = lines[i];
    auto starts = [&](const char *p) { return l.rfind(p, 0) == 0; };
    auto cluster = [&](const std::string &x) {
      std::vector<std::pair<int, int>> c;
      for (auto &b : Split(x, ' ')) {
        auto p = Split(b, '.');
        int id, clone = 0;
        if (p.size() > 2 || !Number(p[0], &id) || (p.size() == 2 && (!Number(p[1], &clone) || !clone || !v1))) return false;
        c.push_back({id, clone});
      }
      out->back().clusters.push_back(c);
      return true;
    };
    if (starts("#")) {
      if (starts("#section ")) section = l.substr(9);
      else if (out->empty()) return "comment before the first function: " + l;
      else if (starts("#ext-tsp score: ")) out->back().score = l.substr(16);
      else if (starts("#entry-freq ")) out->back().entry_freq = l.substr(12);
      else if (starts("#cfg-prof ")) out->back().prof.push_back(l.substr(10));
      else return "unknown comment: " + l;
      continue;
    }
    if (v1) {
      if (starts("m ")) { if (has_module) return "two modules: " + l; has_module = true; module = l.substr(2); }
      else if (starts("f ")) {
        out->push_back({module, has_module, Split(l.substr(2), ' '), {}, {}, section, "", "", {}});
        has_module = false;
        module.clear();
      } else if (has_module || out->empty()) return "out of place: " + l;
      else if (starts("p")) {
        if (!out->back().clusters.empty()) return "path behind a cluster: " + l;
        out->back().paths.emplace_back();
        for (auto &b : Split(l.substr(1), ' ')) { int n; if (!Number(b, &n)) return "path: " + l; out->back().paths.back().push_back(n); }
      } else if (starts("c")) { if (!cluster(l.substr(1))) return "cluster: " + l; }
      else return "unknown line: " + l;
    } else {
      if (starts("!!")) { if (out->empty() || !cluster(l.substr(2))) return "cluster: " + l; }
      else if (starts("!")) {
        std::string x = l.substr(1);
        auto m = x.find(" M=");
        CcFunc f;
        f.section = section;
        if (m != std::string::npos) { f.has_module = true; f.module = x.substr(m + 3); x = x.substr(0, m); }
        f.names = Split(x, '/');
        out->push_back(f);
      } else return "unknown line: " + l;
    }
  }
  return "";
}
}  // namespace
#endif
