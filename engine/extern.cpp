#include "extern.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
extern char **environ;
namespace {
struct Proc { pid_t pid; int fd; std::string out; };
bool start(const char *exe, const char *file, unsigned ms, Proc &p) {
  int fd[2];
  if (pipe2(fd, O_CLOEXEC)) return false;
  posix_spawn_file_actions_t a;
  posix_spawn_file_actions_init(&a);
  posix_spawn_file_actions_addopen(&a, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_adddup2(&a, fd[1], 1);
  posix_spawn_file_actions_adddup2(&a, fd[1], 2);
  std::string t = "-T:" + std::to_string(ms / 1000 + 2), f = file, lim = "-t:" + std::to_string(ms);
  char *av[] = {(char *)exe, (char *)t.c_str(), (char *)lim.c_str(), (char *)"-smt2", (char *)f.c_str(), nullptr};
  int rc = posix_spawnp(&p.pid, exe, &a, nullptr, av, environ);
  posix_spawn_file_actions_destroy(&a);
  close(fd[1]);
  if (rc) { close(fd[0]); return false; }
  p.fd = fd[0];
  return true;
}
}
int externCheck(Z3_context c, Z3_solver s, const std::vector<Z3_ast> &terms, unsigned ms, std::vector<std::string> &values) {
  std::string text = Z3_solver_to_string(c, s);
  text += "\n(check-sat)\n";
  if (!terms.empty()) { text += "(get-value ("; for (auto t : terms) { text += Z3_ast_to_string(c, t); text += ' '; } text += "))\n"; }
  // a declaration for each term that no assertion mentions
  std::string decl;
  for (auto t : terms) {
    std::string n = Z3_ast_to_string(c, t);
    if (text.find("(declare-fun " + n + " ") == std::string::npos) decl += "(declare-fun " + n + " () " + Z3_sort_to_string(c, Z3_get_sort(c, t)) + ")\n";
  }
  text = decl + text;
  char name[] = "/tmp/symexXXXXXX";
  int fd = mkstemp(name);
  if (fd < 0) return -1;
  size_t at = 0;
  while (at < text.size()) { ssize_t k = write(fd, text.data() + at, text.size() - at); if (k <= 0) break; at += (size_t)k; }
  close(fd);
  std::vector<Proc> ps;
  for (const char *e : {"z3", "z3-new"}) { Proc p; p.pid = 0; p.fd = -1; if (start(e, name, ms, p)) ps.push_back(p); }
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms + 1500);
  int res = -1;
  size_t live = ps.size();
  while (live && res < 0) {
    long left = (long)std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
    if (left <= 0) break;
    std::vector<pollfd> pf;
    for (auto &p : ps) pf.push_back({p.fd, POLLIN, 0});
    if (poll(pf.data(), pf.size(), (int)left) <= 0) continue;
    for (size_t i = 0; i < ps.size() && res < 0; ++i) if (ps[i].fd >= 0 && pf[i].revents) {
      char b[65536];
      ssize_t k = read(ps[i].fd, b, sizeof b);
      if (k > 0) { ps[i].out.append(b, (size_t)k); continue; }
      close(ps[i].fd); ps[i].fd = -1; live--;
      const std::string &o = ps[i].out;
      if (o.compare(0, 5, "unsat") == 0) res = 0;
      else if (o.compare(0, 4, "sat\n") == 0) {
        // ((t v) (t v) ...): v a word or (- n)
        std::vector<std::string> got;
        size_t q = 4;
        for (size_t j = 0; j < terms.size(); ++j) {
          q = o.find('(', q + (j == 0));
          if (j == 0 && q != std::string::npos) q = q + 0;
          if (q == std::string::npos) break;
          std::string n = Z3_ast_to_string(c, terms[j]);
          q = o.find(n, q);
          if (q == std::string::npos) break;
          q += n.size();
          while (q < o.size() && isspace((unsigned char)o[q])) ++q;
          std::string v;
          if (o[q] == '(') { while (q < o.size() && o[q] != ')') v += o[q++]; v += ')'; ++q; }
          else while (q < o.size() && o[q] != ')') v += o[q++];
          got.push_back(v);
        }
        if (got.size() == terms.size()) { res = 1; values = got; }
      }
    }
  }
  for (auto &p : ps) { kill(p.pid, SIGKILL); if (p.fd >= 0) close(p.fd); int st; waitpid(p.pid, &st, 0); }
  unlink(name);
  return res;
}
__int128 externNumber(const std::string &s) {
  bool neg = s.find('-') != std::string::npos;
  __int128 v = 0;
  if (s.compare(0, 2, "#x") == 0) { for (size_t i = 2; i < s.size(); ++i) { char c = s[i]; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
  if (s.compare(0, 2, "#b") == 0) { for (size_t i = 2; i < s.size(); ++i) v = v * 2 + (s[i] - '0'); return v; }
  for (char c : s) if (c >= '0' && c <= '9') v = v * 10 + (c - '0');
  return neg ? -v : v;
}
