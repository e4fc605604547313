#include "realcheck.h"
#include "extern.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <stdexcept>
namespace {
typedef __int128 i128;
struct Rat { Z3_ast n, d; };
struct IV { Z3_ast t; i128 lo, hi; };
struct Unsup { std::string why; };
std::string big(u128 v) { std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; }
std::string pow2(int k) {
  std::string s = "1";
  while (k-- > 0) { int c = 0; for (size_t i = s.size(); i-- > 0;) { int v = (s[i] - '0') * 2 + c; s[i] = '0' + v % 10; c = v / 10; } if (c) s.insert(s.begin(), '0' + c); }
  return s;
}
struct RC {
  Solver &S; Z3_context c; Z3_sort I;
  std::vector<Z3_ast> side;                 // constraints
  struct Leaf { E e; bool sgn; Z3_ast v; i128 lo, hi; };
  std::vector<Leaf> leaves;
  std::unordered_map<E, Rat> memo;
  std::unordered_map<E, std::pair<bool, IV>> truncs;
  int fresh = 0;
  RC(Solver &s) : S(s), c(s.ctx) { I = Z3_mk_int_sort(c); Z3_inc_ref(c, (Z3_ast)I); }
  Z3_ast k(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_ast num(const std::string &s) { return k(Z3_mk_numeral(c, s.c_str(), I)); }
  Z3_ast num(i128 v) { return v < 0 ? num("-" + big((u128)(-v))) : num(big((u128)v)); }
  bool isOne(Z3_ast a) { int64_t v; return Z3_is_numeral_ast(c, a) && Z3_get_numeral_int64(c, a, &v) && v == 1; }
  Z3_ast mul(Z3_ast a, Z3_ast b) { if (isOne(a)) return b; if (isOne(b)) return a; Z3_ast x[2] = {a, b}; return k(Z3_mk_mul(c, 2, x)); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(Z3_mk_add(c, 2, x)); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return k(Z3_mk_sub(c, 2, x)); }
  Z3_ast neg(Z3_ast a) { return k(Z3_mk_unary_minus(c, a)); }
  Z3_ast iabs(Z3_ast a) { return k(Z3_mk_ite(c, k(Z3_mk_ge(c, a, num((i128)0))), a, neg(a))); }
  IV fresh_(E e, bool sgn, i128 lo, i128 hi, bool leaf) {
    for (auto &l : leaves) if (l.e == e && l.sgn == sgn) return {l.v, l.lo, l.hi};
    Z3_ast v = k(Z3_mk_const(c, Z3_mk_string_symbol(c, ("leaf" + std::to_string(fresh++)).c_str()), I));
    side.push_back(k(Z3_mk_ge(c, v, num(lo)))); side.push_back(k(Z3_mk_le(c, v, num(hi))));
    (void)leaf;
    for (auto &l : leaves) if (l.e == e) {     // the other reading of the same bits
      Z3_ast d = sgn ? sub(l.v, v) : sub(v, l.v);
      Z3_ast o[2] = {k(Z3_mk_eq(c, d, num((i128)0))), k(Z3_mk_eq(c, d, num((i128)1 << e->w)))};
      side.push_back(k(Z3_mk_or(c, 2, o)));
    }
    leaves.push_back({e, sgn, v, lo, hi});
    return {v, lo, hi};
  }
  static void range(unsigned w, bool sgn, i128 &lo, i128 &hi) {
    if (sgn) { lo = -((i128)1 << (w - 1)); hi = ((i128)1 << (w - 1)) - 1; } else { lo = 0; hi = ((i128)1 << w) - 1; }
  }
  static bool arith(E e) {    // anything but bytes put together
    if (e->op == VAR || isC(e)) return false;
    if (e->op == CONCAT) return arith(e->a) || arith(e->b);
    if (e->op == EXTRACT) return arith(e->a);
    return e->op == SEXT || e->op == F2SI || e->op == F2UI || e->op == ADD || e->op == SUB || e->op == MUL;
  }
  IV bvInt(E e, bool sgn) {
    i128 lo, hi;
    if (e->w > 64) throw Unsup{"wide integer"};
    range(e->w, sgn, lo, hi);
    if (isC(e)) { i128 v = sgn ? sext128(e->c, e->w) : (i128)e->c; return {num(v), v, v}; }
    if (e->op == CONCAT && isC(e->a) && e->a->c == 0) return bvInt(e->b, false);
    if (e->op == SEXT) {
      IV r = bvInt(e->a, true);
      if (sgn || r.lo >= 0) return r;
      return {k(Z3_mk_ite(c, k(Z3_mk_ge(c, r.t, num((i128)0))), r.t, add(r.t, num((i128)1 << e->w)))), lo, hi};
    }
    if (e->op == ADD || e->op == SUB || e->op == MUL) {
      // exact when the result fits; operands read as signed, then as unsigned
      for (int m = 0; m < 2; ++m) {
        size_t mark = leaves.size(), smark = side.size(); auto saved = memo; auto savedT = truncs;
        IV a = bvInt(e->a, m == 0), b = bvInt(e->b, m == 0);
        i128 l, h; Z3_ast t; bool ok = true;
        const i128 LIM = (i128)1 << 62;
        if (a.lo < -LIM || a.hi > LIM || b.lo < -LIM || b.hi > LIM) ok = false;
        if (ok) {
          if (e->op == ADD) { l = a.lo + b.lo; h = a.hi + b.hi; t = add(a.t, b.t); }
          else if (e->op == SUB) { l = a.lo - b.hi; h = a.hi - b.lo; t = sub(a.t, b.t); }
          else { i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); t = mul(a.t, b.t); }
          if (l >= lo && h <= hi) return {t, l, h};
          if (m == 1 || e->op != MUL || (umax(e->a) <= 0xffffffffu && umax(e->b) <= 0xffffffffu)) {
            // the result wraps around
            Z3_ast q = k(Z3_mk_const(c, Z3_mk_string_symbol(c, ("wrap" + std::to_string(fresh++)).c_str()), I));
            Z3_ast v = sub(t, mul(q, num((i128)1 << e->w)));
            side.push_back(k(Z3_mk_ge(c, v, num(lo)))); side.push_back(k(Z3_mk_le(c, v, num(hi))));
            return {v, lo, hi};
          }
        }
        leaves.resize(mark); side.resize(smark); memo = saved; truncs = savedT;
      }
    }
    if (e->op == EXTRACT && e->aux == 0 && e->a->w <= 64 && (e->a->op == F2SI || e->a->op == F2UI || e->a->op == ADD || e->a->op == SUB || e->a->op == MUL)) {
      IV a = bvInt(e->a, e->a->op != F2UI);
      if (a.lo >= lo && a.hi <= hi) return a;
      Z3_ast q = k(Z3_mk_const(c, Z3_mk_string_symbol(c, ("wrap" + std::to_string(fresh++)).c_str()), I));
      Z3_ast v = sub(a.t, mul(q, num((i128)1 << e->w)));
      side.push_back(k(Z3_mk_ge(c, v, num(lo)))); side.push_back(k(Z3_mk_le(c, v, num(hi))));
      return {v, lo, hi};
    }
    if (e->op == CONCAT && arith(e)) {
      IV h = bvInt(e->a, sgn), l = bvInt(e->b, false);
      i128 m = (i128)1 << e->b->w;
      return {add(mul(h.t, num(m)), l.t), h.lo * m, h.hi * m + m - 1};
    }
    if (e->op == EXTRACT && e->a->w <= 64 && arith(e)) {
      IV a = bvInt(e->a, e->a->op != F2UI);
      auto name = [&](const char *n) { return k(Z3_mk_const(c, Z3_mk_string_symbol(c, (n + std::to_string(fresh++)).c_str()), I)); };
      Z3_ast q = name("high"), v = name("part"), low = name("low");
      Z3_ast t = add(add(mul(q, num((i128)1 << (e->aux + e->w))), mul(v, num((i128)1 << e->aux))), low);
      side.push_back(k(Z3_mk_eq(c, a.t, t)));
      side.push_back(k(Z3_mk_ge(c, v, num(lo)))); side.push_back(k(Z3_mk_le(c, v, num(hi))));
      side.push_back(k(Z3_mk_ge(c, low, num((i128)0)))); side.push_back(k(Z3_mk_lt(c, low, num((i128)1 << e->aux))));
      return {v, lo, hi};
    }
    if (e->op == F2SI || e->op == F2UI) {
      if (truncs.count(e) && truncs[e].first == sgn) return truncs[e].second;
      Rat r = real(e->a);
      IV t{k(Z3_mk_const(c, Z3_mk_string_symbol(c, ("trunc" + std::to_string(fresh++)).c_str()), I)), lo, hi};
      // truncation towards zero; a divisor is read as positive after a change of signs
      Z3_ast z = num((i128)0);
      Z3_ast pos = k(Z3_mk_gt(c, r.d, z));
      Z3_ast n = k(Z3_mk_ite(c, pos, r.n, neg(r.n))), d = iabs(r.d);
      Z3_ast rem = sub(n, mul(t.t, d));
      Z3_ast a1[2] = {k(Z3_mk_ge(c, rem, z)), k(Z3_mk_lt(c, rem, d))};
      Z3_ast a2[2] = {k(Z3_mk_le(c, rem, z)), k(Z3_mk_gt(c, rem, neg(d)))};
      side.push_back(k(Z3_mk_ite(c, k(Z3_mk_ge(c, n, z)), k(Z3_mk_and(c, 2, a1)), k(Z3_mk_and(c, 2, a2)))));
      // out of range: the processor's answer is the smallest value
      i128 l2, h2; range(e->w, e->op == F2SI, l2, h2);
      Z3_ast in[2] = {k(Z3_mk_ge(c, t.t, num(l2))), k(Z3_mk_le(c, t.t, num(h2)))};
      Z3_ast v = k(Z3_mk_ite(c, k(Z3_mk_and(c, 2, in)), t.t, num(l2)));
      if (sgn != (e->op == F2SI)) v = sgn ? k(Z3_mk_ite(c, k(Z3_mk_gt(c, v, num(hi))), sub(v, num((i128)1 << e->w)), v)) : k(Z3_mk_ite(c, k(Z3_mk_lt(c, v, num((i128)0))), add(v, num((i128)1 << e->w)), v));
      t.t = v;
      truncs[e] = {sgn, t};
      return t;
    }
    u128 um = umax(e);
    if (!sgn && (i128)um < hi && um >> 64 == 0) hi = (i128)um;
    return fresh_(e, sgn, lo, hi, true);
  }
  Z3_ast cond(E e) {          // null when it cannot be expressed
    switch (e->op) {
      case ULT: case ULE: case SLT: case SLE: {
        if (e->a->w > 64) return nullptr;
        bool sg = e->op == SLT || e->op == SLE;
        Z3_ast a = bvInt(e->a, sg).t, b = bvInt(e->b, sg).t;
        return e->op == ULT || e->op == SLT ? k(Z3_mk_lt(c, a, b)) : k(Z3_mk_le(c, a, b));
      }
      case EQ: {
        if (e->a->w == 1) { Z3_ast a = cond(e->a), b = cond(e->b); return a && b ? k(Z3_mk_eq(c, a, b)) : nullptr; }
        if (e->a->w > 64) return nullptr;
        return k(Z3_mk_eq(c, bvInt(e->a, false).t, bvInt(e->b, false).t));
      }
      case NOT: { if (e->w != 1) return nullptr; Z3_ast a = cond(e->a); return a ? k(Z3_mk_not(c, a)) : nullptr; }
      case CONST: return e->w == 1 ? (e->c ? k(Z3_mk_true(c)) : k(Z3_mk_false(c))) : nullptr;
      case AND: case OR: {
        if (e->w != 1) return nullptr;
        Z3_ast x[2] = {cond(e->a), cond(e->b)};
        if (!x[0] || !x[1]) return nullptr;
        return k(e->op == AND ? Z3_mk_and(c, 2, x) : Z3_mk_or(c, 2, x));
      }
      default: return nullptr;
    }
  }
  Rat cst(double v) {
    if (!std::isfinite(v)) throw Unsup{"a constant that is not finite"};
    if (v == 0) return {num((i128)0), num((i128)1)};
    if (v == std::floor(v) && std::fabs(v) < 9e15) return {num((i128)v), num((i128)1)};
    // short decimal?
    char buf[64];
    for (int p = 0; p <= 15; ++p) {
      double sc = std::pow(10.0, p), m = std::nearbyint(v * sc);
      if (std::fabs(m) < 1e15 && m / sc == v) { snprintf(buf, sizeof buf, "%.0f", sc); return {num((i128)m), num(std::string(buf))}; }
    }
    double a = std::fabs(v);
    if (a >= 1e15) {           // power of ten written as a double
      for (int p = 15; p < 309; ++p) { snprintf(buf, sizeof buf, "1e%d", p); if (strtod(buf, nullptr) == a) return {num((v < 0 ? "-1" : "1") + std::string(p, '0')), num((i128)1)}; }
    }
    int ex; double m = std::frexp(a, &ex);
    u64 mi = (u64)std::ldexp(m, 53); ex -= 53;
    std::string s = (v < 0 ? "-" : "") + big(mi);
    if (ex >= 0) return {mul(num(s), num(pow2(ex))), num((i128)1)};
    return {num(s), num(pow2(-ex))};
  }
  Rat real(E e) {
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Rat r{};
    if (isC(e)) {
      double v;
      if (e->w == 64) { u64 b = (u64)e->c; memcpy(&v, &b, 8); } else if (e->w == 32) { u32 b = (u32)e->c; float f; memcpy(&f, &b, 4); v = f; } else throw Unsup{"width of a constant"};
      r = cst(v);
    } else switch (e->op) {
      case SI2F: r = {bvInt(e->a, true).t, num((i128)1)}; break;
      case UI2F: r = {bvInt(e->a, false).t, num((i128)1)}; break;
      case FADD: case FSUB: {
        Rat a = real(e->a), b = real(e->b);
        Z3_ast x = mul(a.n, b.d), y = mul(b.n, a.d);
        r = {e->op == FADD ? add(x, y) : sub(x, y), mul(a.d, b.d)};
        break;
      }
      case FMUL: { Rat a = real(e->a), b = real(e->b); r = {mul(a.n, b.n), mul(a.d, b.d)}; break; }
      case FDIV: {
        Rat a = real(e->a), b = real(e->b);
        side.push_back(k(Z3_mk_not(c, k(Z3_mk_eq(c, b.n, num((i128)0))))));
        r = {mul(a.n, b.d), mul(a.d, b.n)};
        break;
      }
      case FEXT: case FTRUNC: r = real(e->a); break;
      case UF: {
        const std::string &fn = P.ufName[e->aux];
        if (fn != "floor" && fn != "ceil" && fn != "trunc" && fn != "round") throw Unsup{"function " + fn};
        Rat a = real(e->a);
        Z3_ast t = k(Z3_mk_const(c, Z3_mk_string_symbol(c, (fn + std::to_string(fresh++)).c_str()), I)), z = num((i128)0);
        Z3_ast n = k(Z3_mk_ite(c, k(Z3_mk_gt(c, a.d, z)), a.n, neg(a.n))), d = iabs(a.d), up = k(Z3_mk_ge(c, n, z));
        auto both = [&](Z3_ast x, Z3_ast y) { Z3_ast q[2] = {x, y}; return k(Z3_mk_and(c, 2, q)); };
        Z3_ast rem = sub(n, mul(t, d)), two = num((i128)2);
        Z3_ast fl = both(k(Z3_mk_ge(c, rem, z)), k(Z3_mk_lt(c, rem, d))), ce = both(k(Z3_mk_le(c, rem, z)), k(Z3_mk_gt(c, rem, neg(d))));
        Z3_ast r2 = mul(two, rem);
        if (fn == "floor") side.push_back(fl);
        else if (fn == "ceil") side.push_back(ce);
        else if (fn == "trunc") side.push_back(k(Z3_mk_ite(c, up, fl, ce)));
        else side.push_back(k(Z3_mk_ite(c, up, both(k(Z3_mk_ge(c, r2, neg(d))), k(Z3_mk_lt(c, r2, d))), both(k(Z3_mk_gt(c, r2, neg(d))), k(Z3_mk_le(c, r2, d))))));
        r = {t, num((i128)1)};
        break;
      }
      case XOR: {
        u128 sb = (u128)1 << (e->w - 1);
        if (isC(e->a) && e->a->c == sb) { r = real(e->b); r.n = neg(r.n); break; }
        if (isC(e->b) && e->b->c == sb) { r = real(e->a); r.n = neg(r.n); break; }
        throw Unsup{"bit operation on a real number"};
      }
      default: throw Unsup{"operation on a real number: " + showExpr(e, 4)};
    }
    memo[e] = r;
    return r;
  }
};
}
RealResult realClose(Solver &S, E got, E want, double slack, unsigned timeoutMs, const std::vector<E> &path) {
  RealResult out; out.res = -1;
  RC r(S);
  Z3_context c = S.ctx;
  auto t0 = std::chrono::steady_clock::now();
  auto fin = [&](int res) {
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    S.st.queries++; S.st.time += dt; S.st.maxTime = std::max(S.st.maxTime, dt);
    if (res == 1) S.st.sat++; else if (res == 0) S.st.unsat++; else S.st.unknown++;
    out.res = res;
    return out;
  };
  try {
    Rat a = r.real(got), b = r.real(want), sl = r.cst(slack);
    Z3_ast diff = r.sub(r.mul(a.n, b.d), r.mul(b.n, a.d)), D = r.mul(a.d, b.d);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    Z3_params_set_bool(c, p, Z3_mk_string_symbol(c, "som"), true);
    Z3_ast sd = r.k(Z3_simplify_ex(c, diff, p));
    Z3_params_dec_ref(c, p);
    if (getenv("SYMEX_REAL")) fprintf(stderr, "real: got %s\n want %s\n diff %s\n", showExpr(got, 12).c_str(), showExpr(want, 12).c_str(), Z3_ast_to_string(c, sd));
    // 10^6 |diff| sd > 10^6 slack |D| + (|D| + |want numerator| |got denominator|) sd
    Z3_ast M = r.num((i128)1000000);
    Z3_ast lhs = r.mul(r.mul(M, r.iabs(sd)), sl.d);
    Z3_ast rhs = r.add(r.mul(r.mul(M, sl.n), r.iabs(D)), r.mul(r.add(r.iabs(D), r.iabs(r.mul(b.n, a.d))), sl.d));
    Z3_ast bad = r.k(Z3_mk_gt(c, lhs, rhs));
    { int64_t v; if (!(Z3_is_numeral_ast(c, sd) && Z3_get_numeral_int64(c, sd, &v) && v == 0)) {
      // what the path says about the leaves; leaving a constraint out only makes the check stricter
      std::vector<u32> lv;
      for (auto &l : r.leaves) { auto *q = varsOf(l.e); lv.insert(lv.end(), q->begin(), q->end()); }
      std::sort(lv.begin(), lv.end());
      for (E q : path) {
        bool in = !varsOf(q)->empty();
        for (u32 x : *varsOf(q)) if (!std::binary_search(lv.begin(), lv.end(), x)) in = false;
        if (!in) continue;
        try { if (Z3_ast t = r.cond(q)) r.side.push_back(t); } catch (Unsup &) {}
      }
    } }
    // readings of overlapping bytes agree
    for (size_t i = 0; i < r.leaves.size() && i < 400; ++i) {
      RC::Leaf l = r.leaves[i];
      if (l.e->op != CONCAT || isC(l.e->a) || isC(l.e->b)) continue;
      bool shared = false;
      for (auto &o : r.leaves) if (o.e != l.e) for (u32 x : *varsOf(o.e)) if (std::binary_search(varsOf(l.e)->begin(), varsOf(l.e)->end(), x)) shared = true;
      if (!shared) continue;
      i128 al, ah, bl, bh;
      RC::range(l.e->a->w, false, al, ah); RC::range(l.e->b->w, false, bl, bh);
      IV a = r.fresh_(l.e->a, false, al, ah, true), b = r.fresh_(l.e->b, false, bl, bh, true);
      Z3_ast t = r.add(r.mul(a.t, r.num((i128)1 << l.e->b->w)), b.t);
      Z3_ast e1 = r.k(Z3_mk_eq(c, l.v, t));
      if (l.sgn) { Z3_ast x[2] = {e1, r.k(Z3_mk_eq(c, l.v, r.sub(t, r.num((i128)1 << l.e->w))))}; e1 = r.k(Z3_mk_or(c, 2, x)); }
      r.side.push_back(e1);
    }
    // small values first: a counterexample is found faster there
    for (int stage = 0; stage < 4; ++stage) {
      Z3_solver s = Z3_mk_simple_solver(c);
      Z3_solver_inc_ref(c, s);
      bool zero = false; { int64_t v; zero = Z3_is_numeral_ast(c, sd) && Z3_get_numeral_int64(c, sd, &v) && v == 0; }
      if (zero) { stage = 3; Z3_solver_assert(c, s, r.k(Z3_mk_not(c, r.k(Z3_mk_eq(c, sd, r.num((i128)0)))))); }  // the same polynomial
      else { for (auto x : r.side) Z3_solver_assert(c, s, x); Z3_solver_assert(c, s, bad); }
      i128 lim = stage == 1 ? 20 : 3000;
      if (stage == 1 || stage == 2) for (auto &l : r.leaves) { Z3_solver_assert(c, s, r.k(Z3_mk_le(c, l.v, r.num(lim)))); Z3_solver_assert(c, s, r.k(Z3_mk_ge(c, l.v, r.num(-lim)))); }
      if (stage == 0) for (auto &l : r.leaves) {      // extreme values
        std::vector<Z3_ast> o;
        for (i128 v : {l.lo, l.hi, (i128)1, l.hi / 2 + 1, (i128)-1, l.hi / 256, (i128)0}) if (v >= l.lo && v <= l.hi) o.push_back(r.k(Z3_mk_eq(c, l.v, r.num(v))));
        Z3_solver_assert(c, s, r.k(Z3_mk_or(c, (unsigned)o.size(), o.data())));
      }
      std::vector<Z3_ast> ts; std::vector<std::string> vals;
      for (auto &l : r.leaves) ts.push_back(l.v);
      int res = externCheck(c, s, ts, std::min(timeoutMs, stage < 3 ? 5000u : 20000u), vals);
      if (getenv("SYMEX_REAL") && res == 1) for (size_t i = 0; i < ts.size(); ++i) fprintf(stderr, "  stage %d: %s = %s\n", stage, showExpr(r.leaves[i].e, 4).c_str(), vals[i].c_str());
      if (res == 1) for (size_t i = 0; i < ts.size(); ++i) out.leaves.push_back({r.leaves[i].e, (u128)externNumber(vals[i]) & maskw(r.leaves[i].e->w)});
      Z3_solver_dec_ref(c, s);
      if (res == 1) return fin(1);
      if (stage == 3) return fin(res);
    }
  } catch (Unsup &u) { out.why = u.why; }
  return fin(-1);
}
