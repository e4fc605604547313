// Hash-consed bit-vector expression DAG with a local simplifier.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <z3.h>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  NOT, EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, SEXT,
  FADD, FSUB, FMUL, FDIV, FOEQ, FOLT, FOLE, FUNO, F2SI, F2UI, SI2F, UI2F, FEXT, FTRUNC, UF, AGG
};

struct Expr {
  Op op;
  uint16_t w;
  u32 id;
  u32 aux;  // VAR: variable number; EXTRACT: bit offset; UF: function number
  u128 c;   // CONST value
  const Expr *a, *b, *d;
  u64 h;
  mutable const std::vector<u32> *vars;
  mutable Z3_ast z;
  mutable u32 evEpoch;
  mutable u32 sbEpoch;
  mutable u128 ev;
  mutable u128 um; mutable bool umKnown;
  mutable const Expr *sb;
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s) - s);
}

struct ExprPool {
  std::vector<E> tab;
  size_t cnt = 0;
  u32 nextId = 1;
  std::vector<std::string> varName;
  std::vector<E> varExpr;
  std::vector<unsigned> varW;
  std::vector<std::string> ufName;
  char *chunk = nullptr;
  size_t left = 0;
  ExprPool() : tab(1 << 20, nullptr) {}
  static u64 mix(u64 x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
  }
  E intern(Op op, unsigned w, E a, E b, E d, u32 aux, u128 c) {
    u64 h = mix(((u64)op << 56) ^ ((u64)w << 40) ^ aux);
    h = mix(h ^ (u64)c) ^ mix((u64)(c >> 64) + 77);
    if (a) h = mix(h ^ ((u64)a->id * 0x9E3779B97F4A7C15ULL));
    if (b) h = mix(h ^ ((u64)b->id * 0xC2B2AE3D27D4EB4FULL + 1));
    if (d) h = mix(h ^ ((u64)d->id * 0x165667B19E3779F9ULL + 2));
    size_t m = tab.size() - 1, i = h & m;
    while (tab[i]) {
      E e = tab[i];
      if (e->h == h && e->op == op && e->w == w && e->a == a && e->b == b && e->d == d && e->aux == aux && e->c == c)
        return e;
      i = (i + 1) & m;
    }
    if (left < sizeof(Expr)) { chunk = (char *)aligned_alloc(64, 1 << 22); left = 1 << 22; }
    Expr *e = (Expr *)chunk; chunk += sizeof(Expr); left -= sizeof(Expr);
    memset((void *)e, 0, sizeof(Expr));
    e->op = op; e->w = w; e->a = a; e->b = b; e->d = d; e->aux = aux; e->c = c; e->h = h; e->id = nextId++;
    tab[i] = e;
    if (++cnt * 2 > tab.size()) {
      std::vector<E> n(tab.size() * 2, nullptr);
      size_t mm = n.size() - 1;
      for (E x : tab) if (x) { size_t j = x->h & mm; while (n[j]) j = (j + 1) & mm; n[j] = x; }
      tab.swap(n);
    }
    return e;
  }
};
extern ExprPool P;

inline bool isC(E e) { return e->op == CONST; }
inline E mkConst(unsigned w, u128 c) { return P.intern(CONST, w, 0, 0, 0, 0, c & maskw(w)); }
inline E mkBool(bool b) { return mkConst(1, b); }
inline bool isTrue(E e) { return e->op == CONST && e->c == 1 && e->w == 1; }
inline bool isFalse(E e) { return e->op == CONST && e->c == 0 && e->w == 1; }

E mkVar(unsigned w, const std::string &name);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned off, unsigned w);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkFp(Op op, E a, E b, unsigned w);
E mkUF(const std::string &name, E a, E b, unsigned w);
u128 foldBin(Op op, unsigned w, u128 a, u128 b);
u128 foldFp(Op op, unsigned wa, u128 a, u128 b, unsigned w);
double hostUF(const std::string &n, double a, double b);

u128 umax(E e);          // upper bound of the unsigned value
typedef std::vector<u64> Model;  // by variable number; missing = 0
u128 evalExpr(E e, const Model &m);
const std::vector<u32> *varsOf(E e);
E substExpr(E e, const std::vector<int64_t> &known);  // known[var] = value or -1
std::string showExpr(E e, int depth = 8);
