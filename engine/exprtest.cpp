// Self-test of the simplifier: random expressions, built through the simplifying
// constructors and evaluated concretely in parallel, must agree.
#include "expr.h"
#include <cstdio>
#include <cstdlib>
#include <random>
static std::mt19937_64 R(1);
struct T { E e; u128 v; };
int main(int argc, char **argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 300000;
  R.seed(argc > 2 ? atoi(argv[2]) : 1);
  const unsigned W[] = {1, 7, 8, 16, 32, 64};
  Model m;
  std::vector<E> vars;
  for (unsigned w : {8, 8, 16, 32, 64, 8}) { vars.push_back(mkVar(w, "v")); m.push_back(R() & (u64)maskw(w)); }
  std::vector<T> pool;
  long bad = 0;
  for (int i = 0; i < rounds; ++i) {
    if (i % 200 == 0) {
      pool.clear();
      for (size_t k = 0; k < m.size(); ++k) { u64 x = R(); if (x & 1) x &= R() & R(); m[k] = (x >> (R() % 64)) & (u64)maskw(vars[k]->w); }
      for (size_t k = 0; k < vars.size(); ++k) pool.push_back({vars[k], m[k]});
    }
    auto pick = [&](unsigned w) -> T {
      if (R() % 4 == 0) { u64 c = R() % 3 == 0 ? R() : R() % 3 ? R() % 2000 : (u64)1 << (R() % 64); c &= (u64)maskw(w); return {mkConst(w, c), c}; }
      T t = pool[R() % pool.size()];
      if (R() % 3 == 0) t = pool[pool.size() - 1 - R() % (pool.size() < 5 ? pool.size() : 5)];
      if (t.e->w > w) { unsigned off = R() % (t.e->w - w + 1); if (R() % 2) off = 0; return {mkExtract(t.e, off, w), (t.v >> off) & maskw(w)}; }
      if (t.e->w < w) { if (R() % 2) return {mkZExt(t.e, w), t.v}; return {mkSExt(t.e, w), (u128)sext128(t.v, t.e->w) & maskw(w)}; }
      return t;
    };
    unsigned w = W[R() % 6];
    T a = pick(w), b = pick(w), r;
    unsigned k = R() % 25;
    if (k == 21) { r = {mkConcat(a.e, b.e), (a.v << b.e->w) | b.v}; if (r.e->w > 64) continue; }
    else if (k == 22) { T c = pick(1); r = {mkIte(c.e, a.e, b.e), c.v ? a.v : b.v}; }
    else if (k == 23) { T c = pick(1); r = {mkNot(c.e), !c.v}; }
    else if (k == 24) { unsigned n = 1 + R() % w; unsigned off = R() % (w - n + 1); r = {mkExtract(a.e, off, n), (a.v >> off) & maskw(n)}; }
    else {
      Op ops[] = {ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, UDIV, UREM, MUL};
      Op o = ops[k];
      if ((o == UDIV || o == SDIV || o == UREM || o == SREM) && b.v == 0) continue;
      r = {mkBin(o, a.e, b.e), foldBin(o, w, a.v, b.v)};
    }
    u128 ev = evalExpr(r.e, m);
    if (ev != r.v || (r.e->w < 100 && umax(r.e) < r.v)) {
      if (bad++ < 5) printf("wrong: op %u w %u a=%llx b=%llx want %llx got %llx umax %llx\n  %s\n", k, w, (unsigned long long)a.v, (unsigned long long)b.v, (unsigned long long)r.v, (unsigned long long)ev, (unsigned long long)umax(r.e), showExpr(r.e, 5).c_str());
    }
    pool.push_back(r);
  }
  printf("%d expressions, %ld wrong\n", rounds, bad);
  return bad != 0;
}
