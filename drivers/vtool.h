// Runs the repository's command line tools.
#ifndef VERIF_VTOOL_H_
#define VERIF_VTOOL_H_
#include "vcommon.h"

namespace vh {
inline std::string Tool(const std::string &n) {
  char b[4096];
  ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1);
  std::string s(b, k < 0 ? 0 : k);
  return s.substr(0, s.rfind('/') + 1) + n;
}
// Exit status, or 1000 + signal. `out`: standard output on its own.
inline int RunTool(Ctx &ctx, const std::string &tool, const std::vector<std::string> &args, std::string *err, std::string *out = nullptr) {
  std::string ef = ctx.Tmp("tool_err"), of = ctx.Tmp("tool_out");
  fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    if (out) fd = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    alarm(120);
    std::vector<char *> v{const_cast<char *>(tool.c_str())};
    for (auto &a : args) v.push_back(const_cast<char *>(a.c_str()));
    v.push_back(nullptr);
    execv(tool.c_str(), v.data());
    _exit(126);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  *err = ReadFile(ef);
  if (out) { *out = ReadFile(of); unlink(of.c_str()); }
  unlink(ef.c_str());
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
inline bool Sanitizer(const std::string &err) { return err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos; }
}  // namespace vh
#endif
