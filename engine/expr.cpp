#include "expr.h"
#include <algorithm>
ExprPool P;

E mkVar(unsigned w, const std::string &name) {
  u32 n = P.varName.size();
  P.varName.push_back(name);
  P.varW.push_back(w);
  E e = P.intern(VAR, w, 0, 0, 0, n, 0);
  P.varExpr.push_back(e);
  return e;
}

u128 foldBin(Op op, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: {
      __int128 x = sext128(a, w), y = sext128(b, w);
      if (y == 0) return (x < 0 ? 1 : m) & m;
      if (y == -1) return (u128)(-x) & m;
      return (u128)(x / y) & m;
    }
    case SREM: {
      __int128 x = sext128(a, w), y = sext128(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: {
      __int128 x = sext128(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m;
    }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sext128(a, w) < sext128(b, w);
    case SLE: return sext128(a, w) <= sext128(b, w);
    default: abort();
  }
}

static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 ofD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 ofF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

double hostUF(const std::string &n, double a, double b) {
  if (n == "pow") return pow(a, b);
  if (n == "floor") return std::floor(a);
  if (n == "ceil") return std::ceil(a);
  if (n == "trunc") return std::trunc(a);
  if (n == "round") return std::round(a);
  if (n == "nearbyint" || n == "rint") return std::nearbyint(a);
  if (n == "sqrt") return std::sqrt(a);
  if (n == "fmod") return std::fmod(a, b);
  if (n == "log10") return std::log10(a);
  if (n == "log") return std::log(a);
  if (n == "log2") return std::log2(a);
  if (n == "exp") return std::exp(a);
  if (n == "exp2") return std::exp2(a);
  if (n == "fmax") return std::fmax(a, b);
  if (n == "fmin") return std::fmin(a, b);
  abort();
}

u128 foldFp(Op op, unsigned wa, u128 a, u128 b, unsigned w) {
  if (wa == 32) {
    float x = asF(a), y = asF(b);
    switch (op) {
      case FADD: return ofF(x + y);
      case FSUB: return ofF(x - y);
      case FMUL: return ofF(x * y);
      case FDIV: return ofF(x / y);
      case FOEQ: return x == y;
      case FOLT: return x < y;
      case FOLE: return x <= y;
      case FUNO: return std::isnan(x) || std::isnan(y);
      case FEXT: return ofD((double)x);
      default: break;
    }
    if (op == F2SI || op == F2UI) { a = ofD((double)x); wa = 64; }
  }
  double x = asD(a), y = asD(b);
  switch (op) {
    case FADD: return ofD(x + y);
    case FSUB: return ofD(x - y);
    case FMUL: return ofD(x * y);
    case FDIV: return ofD(x / y);
    case FOEQ: return x == y;
    case FOLT: return x < y;
    case FOLE: return x <= y;
    case FUNO: return std::isnan(x) || std::isnan(y);
    case FTRUNC: return ofF((float)x);
    case F2SI: {
      if (std::isnan(x) || x >= 9223372036854775808.0 || x < -9223372036854775808.0) return ((u128)1 << (w - 1)) & maskw(w);
      return (u128)(__int128)(int64_t)x & maskw(w);
    }
    case F2UI: {
      if (std::isnan(x) || x >= 18446744073709551616.0 || x <= -1.0) return 0;
      return (u128)(u64)x & maskw(w);
    }
    case SI2F: { __int128 v = sext128(a, wa); return w == 32 ? ofF((float)v) : ofD((double)v); }
    case UI2F: return w == 32 ? ofF((float)a) : ofD((double)a);
    default: abort();
  }
}

E mkNot(E a) {
  if (isC(a)) return mkBool(!a->c);
  if (a->op == NOT) return a->a;
  if (a->op == ULT) return mkBin(ULE, a->b, a->a);
  if (a->op == ULE) return mkBin(ULT, a->b, a->a);
  if (a->op == SLT) return mkBin(SLE, a->b, a->a);
  if (a->op == SLE) return mkBin(SLT, a->b, a->a);
  return P.intern(NOT, 1, a, 0, 0, 0, 0);
}

E mkZExt(E e, unsigned w) {
  if (e->w == w) return e;
  return mkConcat(mkConst(w - e->w, 0), e);
}
static bool constChoice(E e, int depth);
E mkSExt(E e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return mkConst(w, (u128)sext128(e->c, e->w));
  if (e->op == CONCAT && isC(e->a) && !((e->a->c >> (e->a->w - 1)) & 1)) return mkZExt(e, w);
  if (e->op == SEXT) return mkSExt(e->a, w);
  if (e->op == ITE && constChoice(e, 4)) return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->d, w));
  return P.intern(SEXT, w, e, 0, 0, 0, 0);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(w, (hi->c << lo->w) | lo->c);
  // right-nested normal form: Concat(hi, Concat(...))
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (isC(hi) && lo->op == CONCAT && isC(lo->a))
    return mkConcat(mkConst(hi->w + lo->a->w, (hi->c << lo->a->w) | lo->a->c), lo->b);
  auto merge = [](E x, E y) -> E {  // x above y, adjacent extracts of one expression
    if (x->op == EXTRACT) {
      if (y->op == EXTRACT && x->a == y->a && x->aux == y->aux + y->w) return mkExtract(x->a, y->aux, x->w + y->w);
      // the low part of a sum or product was narrowed when it was cut off
      if (x->aux == y->w && (x->a->op == MUL || x->a->op == ADD || x->a->op == SUB) && mkExtract(x->a, 0, y->w) == y) return mkExtract(x->a, 0, x->w + y->w);
    }
    return nullptr;
  };
  if (lo->op == CONCAT) {
    if (E m = merge(hi, lo->a)) return mkConcat(m, lo->b);
  } else if (E m = merge(hi, lo)) return m;
  return P.intern(CONCAT, w, hi, lo, 0, 0, 0);
}

E mkExtract(E e, unsigned off, unsigned w) {
  if (off == 0 && w == e->w) return e;
  switch (e->op) {
    case CONST: return mkConst(w, e->c >> off);
    case EXTRACT: return mkExtract(e->a, e->aux + off, w);
    case CONCAT: {
      unsigned lw = e->b->w;
      if (off >= lw) return mkExtract(e->a, off - lw, w);
      if (off + w <= lw) return mkExtract(e->b, off, w);
      return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off));
    }
    case SEXT:
      if (off + w <= e->a->w) return mkExtract(e->a, off, w);
      if (off < e->a->w) return mkSExt(mkExtract(e->a, off, e->a->w - off), w);
      break;
    case AND: case OR: case XOR:
      return mkBin(e->op, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case ADD: case SUB: case MUL:
      if (off == 0) return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
      break;
    case ITE:
      if (isC(e->b) || isC(e->d) || w <= 8)
        return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->d, off, w));
      break;
    default: break;
  }
  return P.intern(EXTRACT, w, e, 0, 0, off, 0);
}

E mkIte(E c, E t, E f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (c->op == NOT) return mkIte(c->a, f, t);
  if (t->w == 1) {
    if (isTrue(t) && isFalse(f)) return c;
    if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkBin(OR, c, f);
    if (isFalse(t)) return mkBin(AND, mkNot(c), f);
    if (isTrue(f)) return mkBin(OR, mkNot(c), t);
    if (isFalse(f)) return mkBin(AND, c, t);
  }
  if (t->op == ITE && t->a == c) t = t->b;
  if (f->op == ITE && f->a == c) f = f->d;
  return P.intern(ITE, t->w, c, t, f, 0, 0);
}

// number of trailing constant-zero / leading constant-zero structure used to turn
// disjoint OR/ADD into concatenation
static bool piecewise(E e) {
  return e->op == CONCAT || e->op == CONST || (e->op == EXTRACT) || e->op == VAR;
}
static E joinDisjoint(E a, E b) {
  unsigned w = a->w;
  if (w <= 1) return nullptr;
  if (!(a->op == CONCAT || b->op == CONCAT)) return nullptr;
  // cut points: walk both concat lists
  std::vector<E> pa, pb;
  auto flat = [](E e, std::vector<E> &o) { while (e->op == CONCAT) { o.push_back(e->a); e = e->b; } o.push_back(e); };
  flat(a, pa); flat(b, pb);
  // process from high to low with splitting
  std::vector<E> out;
  size_t i = 0, j = 0;
  E x = pa[0], y = pb[0];
  while (true) {
    unsigned n = std::min(x->w, y->w);
    E xh = mkExtract(x, x->w - n, n), yh = mkExtract(y, y->w - n, n);
    if (isC(xh) && xh->c == 0) out.push_back(yh);
    else if (isC(yh) && yh->c == 0) out.push_back(xh);
    else return nullptr;
    if (x->w == n) { if (++i < pa.size()) x = pa[i]; else x = nullptr; } else x = mkExtract(x, 0, x->w - n);
    if (y->w == n) { if (++j < pb.size()) y = pb[j]; else y = nullptr; } else y = mkExtract(y, 0, y->w - n);
    if (!x || !y) break;
  }
  E r = out.back();
  for (int k = (int)out.size() - 2; k >= 0; --k) r = mkConcat(out[k], r);
  return r;
}

static bool isPow2Mask(u128 c, unsigned &k) {  // c == 2^k - 1
  if (c == 0 || (c & (c + 1))) return false;
  k = 0; while (c) { k++; c >>= 1; }
  return true;
}

u128 umax(E e) {
  if (e->op == CONST) return e->c;
  if (e->umKnown) return e->um;
  unsigned w = e->w;
  u128 m = maskw(w), r = m;
  if (w < 100) switch (e->op) {
    case CONCAT: r = (umax(e->a) << e->b->w) + umax(e->b); break;
    case EXTRACT: { u128 x = umax(e->a) >> e->aux; r = x < m ? x : m; break; }
    case ITE: r = std::max(umax(e->b), umax(e->d)); break;
    case ADD: { u128 x = umax(e->a) + umax(e->b); if (x <= m) r = x; break; }
    case MUL: { u128 x = umax(e->a), y = umax(e->b); if (!y || x <= m / y) r = x * y; break; }
    case AND: r = std::min(umax(e->a), umax(e->b)); break;
    case OR: case XOR: { u128 x = std::max(umax(e->a), umax(e->b)); unsigned k = 0; while (x) { k++; x >>= 1; } r = maskw(k ? k : 1); if (!k) r = 0; break; }
    case LSHR: r = umax(e->a); break;
    case UDIV: if (isC(e->b) && e->b->c) r = umax(e->a) / e->b->c; break;
    case UREM: if (isC(e->b) && e->b->c) r = std::min(umax(e->a), e->b->c - 1); break;
    default: break;
  }
  e->um = r; e->umKnown = true;
  return r;
}
// a choice among constants (depth limited)
static bool constChoice(E e, int depth) { return isC(e) || (depth && e->op == ITE && constChoice(e->b, depth - 1) && constChoice(e->d, depth - 1)); }
static E cmpIte(Op op, E a, E b) {
  if (isC(b) && a->op == ITE && constChoice(a, 4)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
  if (isC(a) && b->op == ITE && constChoice(b, 4)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
  return nullptr;
}
static unsigned bitsOf(u128 x) { unsigned k = 0; while (x) { k++; x >>= 1; } return k ? k : 1; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  bool cmp = op == EQ || op == ULT || op == ULE || op == SLT || op == SLE;
  if (isC(a) && isC(b)) return mkConst(cmp ? 1 : w, foldBin(op, w, a->c, b->c));
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm) {
    if (isC(b)) std::swap(a, b);                       // constant on the left
    else if (!isC(a) && a->id > b->id) std::swap(a, b);
  }
  switch (op) {
    case ADD:
      if (isC(a) && b->op == CONCAT && isC(b->a) && b->a->c && w < 100) return mkBin(ADD, mkConst(w, a->c + (b->a->c << b->b->w)), mkZExt(b->b, w));
      if (isC(a)) {
        if (a->c == 0) return b;
        if (b->op == ADD && isC(b->a)) return mkBin(ADD, mkConst(w, a->c + b->a->c), b->b);
        if (b->op == CONCAT && w <= 64) {                // a constant low part: the carry is known
          E l = b; unsigned lw;
          while (l->op == CONCAT) l = l->b;
          lw = l->w;
          if (isC(l) && lw < w) {
            u128 low = (a->c & maskw(lw)) + l->c;
            return mkConcat(mkBin(ADD, mkConst(w - lw, (a->c >> lw) + (low >> lw)), mkExtract(b, lw, w - lw)), mkConst(lw, low & maskw(lw)));
          }
        }
      }
      if (E j = joinDisjoint(a, b)) return j;
      if (a->op == MUL && b->op == MUL && isC(a->a) && a->a == b->a) return mkBin(MUL, a->a, mkBin(ADD, a->b, b->b));
      if (b->op == ADD && isC(b->a) && !isC(a)) return mkBin(ADD, b->a, mkBin(ADD, a, b->b));
      if (a->op == ADD && isC(a->a) && !isC(b)) return mkBin(ADD, a->a, mkBin(ADD, a->b, b));
      break;
    case SUB:
      if (a == b) return mkConst(w, 0);
      if (isC(b)) return mkBin(ADD, mkConst(w, -b->c), a);
      if (a->op == ADD) { if (a->b == b) return a->a; if (a->a == b) return a->b; }
      if (a->op == MUL && b->op == MUL && isC(a->a) && a->a == b->a) return mkBin(MUL, a->a, mkBin(SUB, a->b, b->b));
      if (a->op == ADD || b->op == ADD) {              // cancel common terms of two sums
        std::vector<E> ta, tb;
        struct F { static void f(E e, std::vector<E> &o) { if (e->op == ADD && o.size() < 24) { f(e->a, o); f(e->b, o); } else o.push_back(e); } };
        F::f(a, ta); F::f(b, tb);
        bool hit = false;
        for (E &x : ta) for (E &y : tb) if (x && y && x == y) { x = y = nullptr; hit = true; break; }
        if (hit) {
          auto sum = [&](std::vector<E> &v) { E r = nullptr; for (size_t i = v.size(); i-- > 0;) if (v[i]) r = r ? mkBin(ADD, r, v[i]) : v[i]; return r ? r : mkConst(w, 0); };
          return mkBin(SUB, sum(ta), sum(tb));
        }
      }
      if (a->op == ADD && b->op == ADD && isC(a->a) && isC(b->a)) return mkBin(ADD, mkConst(w, a->a->c - b->a->c), mkBin(SUB, a->b, b->b));
      if (b->op == ADD && isC(b->a)) return mkBin(ADD, mkConst(w, -b->a->c), mkBin(SUB, a, b->b));
      if (a->op == ADD && isC(a->a)) return mkBin(ADD, a->a, mkBin(SUB, a->b, b));
      break;
    case MUL:
      if (isC(a)) {
        if (a->c == 0) return a;
        if (a->c == 1) return b;
        if (b->op == MUL && isC(b->a)) return mkBin(MUL, mkConst(w, a->c * b->a->c), b->b);
        if (!(a->c & (a->c - 1))) {
          unsigned k = 0; while (!((a->c >> k) & 1)) k++;
          return mkConcat(mkExtract(b, 0, w - k), mkConst(k, 0));
        }
      }
      break;
    case UDIV:
      if (isC(b)) {
        if (b->c == 1) return a;
        if (b->c > umax(a)) return mkConst(w, 0);
        if (b->c && !(b->c & (b->c - 1))) return mkBin(LSHR, a, mkConst(w, [&] { unsigned k = 0; while (!((b->c >> k) & 1)) k++; return (u128)k; }()));
      }
      if (isC(b) && b->c && w < 100) {
        if (a->op == MUL && isC(a->a) && umax(a->b) <= maskw(w) / a->a->c) {
          u128 g = a->a->c, h = b->c; while (h) { u128 t = g % h; g = h; h = t; }
          if (g > 1) return mkBin(UDIV, mkBin(MUL, mkConst(w, a->a->c / g), a->b), mkConst(w, b->c / g));
        }
        if (a->op == UDIV && isC(a->b) && a->b->c && a->b->c <= maskw(w) / b->c) return mkBin(UDIV, a->a, mkConst(w, a->b->c * b->c));
        unsigned k = std::max(bitsOf(umax(a)), bitsOf(b->c));
        if (k < w) return mkZExt(mkBin(UDIV, mkExtract(a, 0, k), mkConst(k, b->c)), w);
      }
      break;
    case SDIV: case SREM:
      if (w > 1 && w < 100 && !(umax(a) >> (w - 1)) && !(umax(b) >> (w - 1))) return mkBin(op == SDIV ? UDIV : UREM, a, b);
      break;
    case UREM:
      if (isC(b) && b->c && w < 100) {
        if (umax(a) < b->c) return a;
        if (a->op == MUL && isC(a->a) && a->a->c % b->c == 0 && umax(a->b) <= maskw(w) / a->a->c) return mkConst(w, 0);
        unsigned k = std::max(bitsOf(umax(a)), bitsOf(b->c));
        if (k < w && (b->c & (b->c - 1))) return mkZExt(mkBin(UREM, mkExtract(a, 0, k), mkConst(k, b->c)), w);
      }
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(AND, mkConst(w, b->c - 1), a);
      break;
    case AND:
      if (a == b) return a;
      if (isC(a)) {
        if (a->c == 0) return a;
        if (a->c == maskw(w)) return b;
        if (w > 1) {
          // contiguous runs become concat of extracts
          unsigned lo = 0; u128 c = a->c;
          while (!((c >> lo) & 1)) lo++;
          unsigned k;
          if (isPow2Mask(c >> lo, k)) {
            E r = mkExtract(b, lo, k);
            if (lo) r = mkConcat(r, mkConst(lo, 0));
            if (r->w < w) r = mkConcat(mkConst(w - r->w, 0), r);
            return r;
          }
        }
        if (b->op == CONCAT) return mkConcat(mkBin(AND, mkConst(b->a->w, a->c >> b->b->w), b->a), mkBin(AND, mkConst(b->b->w, a->c), b->b));
      }
      if (w == 1 && ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a))) return mkBool(false);
      if (w == 1) for (int k = 0; k < 2; ++k) {          // x <= y and x != y
        E x = k ? b : a, y = k ? a : b;
        if ((x->op == ULE || x->op == SLE) && y->op == NOT && y->a->op == EQ && ((y->a->a == x->a && y->a->b == x->b) || (y->a->a == x->b && y->a->b == x->a))) return mkBin(x->op == ULE ? ULT : SLT, x->a, x->b);
      }
      break;
    case OR:
      if (a == b) return a;
      if (isC(a)) {
        if (a->c == 0) return b;
        if (a->c == maskw(w)) return a;
      }
      if (E j = joinDisjoint(a, b)) return j;
      if (isC(a) && b->op == CONCAT) return mkConcat(mkBin(OR, mkConst(b->a->w, a->c >> b->b->w), b->a), mkBin(OR, mkConst(b->b->w, a->c), b->b));
      if (w == 1 && ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a))) return mkBool(true);
      break;
    case XOR:
      if (a == b) return mkConst(w, 0);
      if (isC(a)) {
        if (a->c == 0) return b;
        if (w == 1) return mkNot(b);
        if (b->op == XOR && isC(b->a)) return mkBin(XOR, mkConst(w, a->c ^ b->a->c), b->b);
      }
      if (E j = joinDisjoint(a, b)) return j;
      break;
    case SHL:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(w, 0);
        return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst((unsigned)b->c, 0));
      }
      break;
    case LSHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(w, 0);
        return mkConcat(mkConst((unsigned)b->c, 0), mkExtract(a, (unsigned)b->c, w - (unsigned)b->c));
      }
      break;
    case ASHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case EQ:
      if (a == b) return mkBool(true);
      if (w == 1) { if (isC(a)) return a->c ? b : mkNot(b); }
      if (isC(a)) {
        if (b->op == CONCAT)
          return mkBin(AND, mkBin(EQ, mkConst(b->a->w, a->c >> b->b->w), b->a), mkBin(EQ, mkConst(b->b->w, a->c), b->b));
        if (b->op == ADD && isC(b->a)) return mkBin(EQ, mkConst(w, a->c - b->a->c), b->b);
        if (b->op == XOR && isC(b->a)) return mkBin(EQ, mkConst(w, a->c ^ b->a->c), b->b);
        if (b->op == SEXT) {
          u128 lo = a->c & maskw(b->a->w);
          if (((u128)sext128(lo, b->a->w) & maskw(w)) != a->c) return mkBool(false);
          return mkBin(EQ, mkConst(b->a->w, lo), b->a);
        }
        if (b->op == ITE && (isC(b->b) || isC(b->d)))
          return mkIte(b->a, mkBin(EQ, a, b->b), mkBin(EQ, a, b->d));
      }
      if (a->op == MUL && b->op == MUL && isC(a->a) && a->a == b->a && w < 100 && a->a->c && umax(a->b) <= maskw(w) / a->a->c && umax(b->b) <= maskw(w) / a->a->c) return mkBin(EQ, a->b, b->b);
      if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w)
        return mkBin(AND, mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
      if (a->op == ADD && b->op == ADD && isC(a->a) && isC(b->a)) {
        if (a->a == b->a) return mkBin(EQ, a->b, b->b);
        if (a->b == b->b) return mkBool(false);
      }
      if (w > 1 && w < 100) {
        u128 ua = umax(a), ub = umax(b);
        if ((isC(a) && a->c > ub) || (isC(b) && b->c > ua)) return mkBool(false);
        unsigned k = std::max(bitsOf(ua), bitsOf(ub));
        if (k < w) return mkBin(EQ, mkExtract(a, 0, k), mkExtract(b, 0, k));
      }
      if (a->op == ADD && isC(a->a) && a->b == b) return mkBool(a->a->c == 0);
      if (b->op == ADD && isC(b->a) && b->b == a) return mkBool(b->a->c == 0);
      break;
    case ULT:
      if (a == b) return mkBool(false);
      if (E r = cmpIte(op, a, b)) return r;
      if (isC(b) && b->c == 0) return mkBool(false);
      if (isC(a) && a->c == maskw(w)) return mkBool(false);
      if (isC(b) && b->c == 1) return mkBin(EQ, mkConst(w, 0), a);
      if (isC(a) && a->c == 0) return mkNot(mkBin(EQ, a, b));
      goto zcmp;
    case ULE:
      if (a == b) return mkBool(true);
      if (E r = cmpIte(op, a, b)) return r;
      if (isC(a) && a->c == 0) return mkBool(true);
      if (isC(b) && b->c == maskw(w)) return mkBool(true);
      if (isC(b) && b->c == 0) return mkBin(EQ, b, a);
    zcmp: {
      if (w < 100) {
        u128 ua = umax(a), ub = umax(b);
        if (isC(b) && (op == ULT ? ua < b->c : ua <= b->c)) return mkBool(true);
        if (isC(a) && (op == ULT ? a->c >= ub : a->c > ub)) return mkBool(false);
        auto scaled = [&](E e) { return e->op == MUL && isC(e->a) && e->a->c > 1 && umax(e->b) <= maskw(w) / e->a->c; };
        if (scaled(a) && scaled(b)) {
          u128 g = a->a->c, h = b->a->c; while (h) { u128 t = g % h; g = h; h = t; }
          if (g > 1) return mkBin(op, mkBin(MUL, mkConst(w, a->a->c / g), a->b), mkBin(MUL, mkConst(w, b->a->c / g), b->b));
        }
      }
      // common constant-zero prefix
      auto zp = [](E e) -> unsigned {
        if (isC(e)) { unsigned k = e->w; while (k && !((e->c >> (k - 1)) & 1)) k--; return e->w - k; }
        if (e->op == CONCAT && isC(e->a)) { E x = e->a; unsigned k = x->w; while (k && !((x->c >> (k - 1)) & 1)) k--; return x->w - k; }
        return 0;
      };
      unsigned za = zp(a), zb = zp(b);
      if (w < 100) { za = std::max(za, w - bitsOf(umax(a))); zb = std::max(zb, w - bitsOf(umax(b))); }
      unsigned z = std::min(za, zb);
      if (z >= w) z = w - 1;
      if (z > 0) return mkBin(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
      // one side has zero top bits and other constant has top bit set
      if (isC(b) && ((b->c >> (w - 1)) & 1) && za > 0) return mkBool(true);
      if (isC(a) && ((a->c >> (w - 1)) & 1) && zb > 0) return mkBool(false);
      break;
    }
    case SLT: case SLE: {
      if (a == b) return mkBool(op == SLE);
      if (E r = cmpIte(op, a, b)) return r;
      auto top0 = [](E e) { return (isC(e) && !((e->c >> (e->w - 1)) & 1)) || (e->op == CONCAT && isC(e->a) && !((e->a->c >> (e->a->w - 1)) & 1)); };
      if (w > 1 && w < 100 && !(umax(a) >> (w - 1)) && !(umax(b) >> (w - 1))) return mkBin(op == SLT ? ULT : ULE, a, b);
      if (top0(a) && top0(b)) return mkBin(op == SLT ? ULT : ULE, a, b);
      break;
    }
    default: break;
  }
  return P.intern(op, cmp ? 1 : w, a, b, 0, 0, 0);
}

E mkFp(Op op, E a, E b, unsigned w) {
  if (isC(a) && (!b || isC(b))) return mkConst(w, foldFp(op, a->w, a->c, b ? b->c : 0, w));
  if ((op == FADD || op == FMUL || op == FOEQ || op == FUNO) && a->id > b->id) std::swap(a, b);
  return P.intern(op, w, a, b, 0, 0, 0);
}
E mkUF(const std::string &name, E a, E b, unsigned w) {
  if (isC(a) && isC(b)) {
    double x, y; u64 p = (u64)a->c, q = (u64)b->c;
    memcpy(&x, &p, 8); memcpy(&y, &q, 8);
    double r = hostUF(name, x, y); u64 z; memcpy(&z, &r, 8);
    return mkConst(64, z);
  }
  size_t i = 0;
  for (; i < P.ufName.size(); ++i) if (P.ufName[i] == name) break;
  if (i == P.ufName.size()) P.ufName.push_back(name);
  return P.intern(UF, w, a, b, 0, i, 0);
}

static u32 gEv = 0, gSb = 0;
static u128 evalRec(E e, const Model &m) {
  if (e->op == CONST) return e->c;
  if (e->evEpoch == gEv) return e->ev;
  u128 r;
  switch (e->op) {
    case VAR: r = e->aux < m.size() ? m[e->aux] : 0; break;
    case NOT: r = !evalRec(e->a, m); break;
    case ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    case CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case EXTRACT: r = (evalRec(e->a, m) >> e->aux) & maskw(e->w); break;
    case SEXT: r = (u128)sext128(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case UF: {
      double x = asD(evalRec(e->a, m)), y = asD(evalRec(e->b, m));
      r = ofD(hostUF(P.ufName[e->aux], x, y));
      break;
    }
    default:
      if (e->op >= FADD && e->op <= FTRUNC) r = foldFp(e->op, e->a->w, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0, e->w);
      else r = foldBin(e->op, e->a->w, evalRec(e->a, m), evalRec(e->b, m));
  }
  e->ev = r; e->evEpoch = gEv;
  return r;
}
u128 evalExpr(E e, const Model &m) { ++gEv; return evalRec(e, m); }

const std::vector<u32> *varsOf(E e) {
  static const std::vector<u32> none;
  if (e->vars) return e->vars;
  if (e->op == CONST) return e->vars = &none;
  if (e->op == VAR) return e->vars = new std::vector<u32>{e->aux};
  const std::vector<u32> *r = &none;
  for (E k : {e->a, e->b, e->d}) if (k) {
    auto *v = varsOf(k);
    if (r->empty()) r = v;
    else if (!v->empty() && v != r) {
      if (std::includes(r->begin(), r->end(), v->begin(), v->end())) continue;
      auto *n = new std::vector<u32>();
      std::set_union(r->begin(), r->end(), v->begin(), v->end(), std::back_inserter(*n));
      r = n;
    }
  }
  return e->vars = r;
}

static E substRec(E e, const std::vector<int64_t> &k) {
  if (e->op == CONST) return e;
  if (e->op == VAR) return e->aux < k.size() && k[e->aux] >= 0 ? mkConst(e->w, (u64)k[e->aux]) : e;
  if (e->sbEpoch == gSb) return e->sb;
  E a = e->a ? substRec(e->a, k) : 0, b = e->b ? substRec(e->b, k) : 0, d = e->d ? substRec(e->d, k) : 0, r;
  if (a == e->a && b == e->b && d == e->d) r = e;
  else switch (e->op) {
    case NOT: r = mkNot(a); break;
    case ITE: r = mkIte(a, b, d); break;
    case CONCAT: r = mkConcat(a, b); break;
    case EXTRACT: r = mkExtract(a, e->aux, e->w); break;
    case SEXT: r = mkSExt(a, e->w); break;
    case UF: r = mkUF(P.ufName[e->aux], a, b, e->w); break;
    default:
      if (e->op >= FADD && e->op <= FTRUNC) r = mkFp(e->op, a, b, e->w);
      else r = mkBin(e->op, a, b);
  }
  e->sb = r; e->sbEpoch = gSb;
  return r;
}
E substExpr(E e, const std::vector<int64_t> &known) {
  bool any = false;
  for (u32 v : *varsOf(e)) if (v < known.size() && known[v] >= 0) { any = true; break; }
  if (!any) return e;
  ++gSb;
  return substRec(e, known);
}

std::string showExpr(E e, int depth) {
  static const char *n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","not","eq","ult","ule","slt","sle","ite","concat","extract","sext","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","f2si","f2ui","si2f","ui2f","fext","ftrunc","uf","agg"};
  if (e->op == CONST) { char b[40]; snprintf(b, 40, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == VAR) return P.varName[e->aux];
  if (depth == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  for (E k : {e->a, e->b, e->d}) if (k) s += " " + showExpr(k, depth - 1);
  return s + ")";
}
