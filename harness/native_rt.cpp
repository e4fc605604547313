// Native side of sym.h: runs one harness entry on one recorded input.
//   replay ENTRY INPUT...     each input in a forked child; prints one result line each
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
struct In { std::string label; Bytes v; };
static std::vector<In> ins;
static std::vector<uint64_t> gargs;
static std::vector<std::pair<std::string, uint64_t>> expect;
static bool isRestricted = false;
static size_t pos = 0, opos = 0;
static FILE *rep;
[[noreturn]] static void done(int rc, const char *what, const std::string &l) { fprintf(rep, "%s %s\n", what, l.c_str()); fflush(rep); _Exit(rc); }
static const Bytes &next(const char *label, unsigned n) {
  if (pos >= ins.size()) done(4, "DIVERGED", std::string("no more inputs at ") + label);
  In &i = ins[pos++];
  if (i.label != label || i.v.size() != n) done(4, "DIVERGED", "expected " + i.label + " got " + label);
  return i.v;
}
extern "C" {
void sym_bytes(void *p, unsigned n, const char *l) { auto &v = next(l, n); if (n) memcpy(p, v.data(), n); }
uint8_t sym_u8(const char *l) { return next(l, 1)[0]; }
uint16_t sym_u16(const char *l) { return rd(next(l, 2).data(), 2); }
uint32_t sym_u32(const char *l) { return rd(next(l, 4).data(), 4); }
uint64_t sym_u64(const char *l) { return rd(next(l, 8).data(), 8); }
int sym_restricted() { return isRestricted; }
uint64_t sym_arg(int i) { return gargs.at(i); }
void sym_assume(int c) { if (!c) done(5, "ASSUME", ""); }
void sym_check(int c, const char *l) { if (!c) done(3, "FAIL", l); }
void sym_check_real(double g, double w, double slack, const char *l) { double d = g > w ? g - w : w - g, m = w < 0 ? -w : w; if (!(d <= slack + 1e-7 * (1 + m))) done(3, "FAIL", l); }
void sym_eq_bytes(const void *a, const void *b, size_t n, const char *l) { if (memcmp(a, b, n)) done(3, "FAIL", l); }
void sym_fail(const char *l) { done(3, "FAIL", l); }
void sym_kill() { done(5, "ASSUME", "kill"); }
void sym_reach(const char *) {}
void sym_observe(const char *l, uint64_t v) {
  if (expect.empty()) return;
  if (opos >= expect.size() || expect[opos].first != l || expect[opos].second != v) {
    std::ostringstream o;
    o << l << "=" << v << " expected ";
    if (opos < expect.size()) o << expect[opos].first << "=" << expect[opos].second; else o << "end";
    done(6, "MISMATCH", o.str());
  }
  opos++;
}
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_fork(int c) { return c; }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
int sym_not(int a) { return !a; }
uint64_t sym_ite64(int c, uint64_t a, uint64_t b) { return c ? a : b; }
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
static bool load(const char *f) {
  std::ifstream i(f);
  std::string line;
  ins.clear(); gargs.clear(); expect.clear(); pos = opos = 0; isRestricted = false;
  if (!i) return false;
  while (std::getline(i, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line.substr(2));
    if (line[0] == 'A') { uint64_t v; s >> v; gargs.push_back(v); }
    else if (line[0] == 'R') isRestricted = true;
    else if (line[0] == 'I') {
      In x; std::string h; s >> x.label >> h;
      if (h != "-") for (size_t k = 0; k + 1 < h.size(); k += 2) x.v.push_back((uint8_t)strtoul(h.substr(k, 2).c_str(), 0, 16));
      ins.push_back(x);
    } else if (line[0] == 'O') { std::string l; uint64_t v; s >> l >> v; expect.push_back({l, v}); }
  }
  return true;
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  for (int k = 2; k < argc; ++k) {
    if (!load(argv[k])) { printf("ERROR cannot read %s\n", argv[k]); continue; }
    fflush(stdout);
    int p[2];
    if (pipe(p)) return 2;
    pid_t c = fork();
    if (c == 0) {
      close(p[0]);
      rep = fdopen(p[1], "w");
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      alarm(20);
      try { fn(); }
      catch (std::exception &e) { done(7, "UNCAUGHT", e.what()); }
      catch (...) { done(7, "UNCAUGHT", "other"); }
      if (!expect.empty() && opos != expect.size()) done(6, "MISMATCH", "fewer observations than expected");
      if (pos != ins.size()) done(4, "DIVERGED", "inputs left over");
      done(0, "OK", "");
    }
    close(p[1]);
    std::string out; char b[512]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(c, &st, 0);
    if (!out.empty() && out.back() == '\n') out.pop_back();
    if (out.empty()) {
      if (WIFSIGNALED(st)) out = std::string(WTERMSIG(st) == SIGALRM ? "HANG " : "SIGNAL ") + std::to_string(WTERMSIG(st));
      else if (WEXITSTATUS(st) == 99) out = "ASAN memory error";
      else out = "EXIT " + std::to_string(WEXITSTATUS(st));
    }
    printf("%s\n", out.c_str());
  }
  return 0;
}
