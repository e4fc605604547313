#include "solver.h"
#include "extern.h"
#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include <cstdio>
#include <tuple>

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
}

// every created term is kept: reference counting is not worth it for a cached DAG
template <class R, class... P> struct Kept { R (*f)(P...); R operator()(P... p) const { R r = f(p...); Z3_inc_ref(std::get<0>(std::tuple<P...>(p...)), (Z3_ast)r); return r; } };
template <class R, class... P> static Kept<R, P...> K(R (*f)(P...)) { return {f}; }
Z3_sort Solver::bv(unsigned w) {
  auto &s = bvSort[w];
  if (!s) { s = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, (Z3_ast)s); }
  return s;
}
Z3_ast Solver::toFp(E e) {
  Z3_sort s = e->w == 32 ? K(Z3_mk_fpa_sort_32)(ctx) : K(Z3_mk_fpa_sort_64)(ctx);
  return K(Z3_mk_fpa_to_fp_bv)(ctx, tr(e), s);
}

Z3_ast Solver::tr(E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  auto b1 = [&](Z3_ast cond) { return K(Z3_mk_ite)(ctx, cond, K(Z3_mk_unsigned_int64)(ctx, 1, bv(1)), K(Z3_mk_unsigned_int64)(ctx, 0, bv(1))); };
  auto A = [&] { return tr(e->a); };
  auto B = [&] { return tr(e->b); };
  auto rne = [&] { return K(Z3_mk_fpa_rne)(ctx); };
  switch (e->op) {
    case CONST:
      if (e->w <= 64) r = K(Z3_mk_unsigned_int64)(ctx, (u64)e->c, bv(e->w));
      else r = K(Z3_mk_concat)(ctx, K(Z3_mk_unsigned_int64)(ctx, (u64)(e->c >> 64), bv(e->w - 64)), K(Z3_mk_unsigned_int64)(ctx, (u64)e->c, bv(64)));
      break;
    case VAR: r = K(Z3_mk_const)(ctx, Z3_mk_int_symbol(ctx, e->aux), bv(e->w)); break;
    case ADD: r = K(Z3_mk_bvadd)(ctx, A(), B()); break;
    case SUB: r = K(Z3_mk_bvsub)(ctx, A(), B()); break;
    case MUL: r = K(Z3_mk_bvmul)(ctx, A(), B()); break;
    case UDIV: r = K(Z3_mk_bvudiv)(ctx, A(), B()); break;
    case SDIV: r = K(Z3_mk_bvsdiv)(ctx, A(), B()); break;
    case UREM: r = K(Z3_mk_bvurem)(ctx, A(), B()); break;
    case SREM: r = K(Z3_mk_bvsrem)(ctx, A(), B()); break;
    case AND: r = K(Z3_mk_bvand)(ctx, A(), B()); break;
    case OR: r = K(Z3_mk_bvor)(ctx, A(), B()); break;
    case XOR: r = K(Z3_mk_bvxor)(ctx, A(), B()); break;
    case SHL: r = K(Z3_mk_bvshl)(ctx, A(), B()); break;
    case LSHR: r = K(Z3_mk_bvlshr)(ctx, A(), B()); break;
    case ASHR: r = K(Z3_mk_bvashr)(ctx, A(), B()); break;
    case NOT: r = K(Z3_mk_bvnot)(ctx, A()); break;
    case EQ: r = b1(K(Z3_mk_eq)(ctx, A(), B())); break;
    case ULT: r = b1(K(Z3_mk_bvult)(ctx, A(), B())); break;
    case ULE: r = b1(K(Z3_mk_bvule)(ctx, A(), B())); break;
    case SLT: r = b1(K(Z3_mk_bvslt)(ctx, A(), B())); break;
    case SLE: r = b1(K(Z3_mk_bvsle)(ctx, A(), B())); break;
    case ITE: r = K(Z3_mk_ite)(ctx, K(Z3_mk_eq)(ctx, A(), K(Z3_mk_unsigned_int64)(ctx, 1, bv(1))), B(), tr(e->d)); break;
    case CONCAT: r = K(Z3_mk_concat)(ctx, A(), B()); break;
    case EXTRACT: r = K(Z3_mk_extract)(ctx, e->aux + e->w - 1, e->aux, A()); break;
    case SEXT: r = K(Z3_mk_sign_ext)(ctx, e->w - e->a->w, A()); break;
    case FADD: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_add)(ctx, rne(), toFp(e->a), toFp(e->b))); break;
    case FSUB: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_sub)(ctx, rne(), toFp(e->a), toFp(e->b))); break;
    case FMUL: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_mul)(ctx, rne(), toFp(e->a), toFp(e->b))); break;
    case FDIV: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_div)(ctx, rne(), toFp(e->a), toFp(e->b))); break;
    case FOEQ: r = b1(K(Z3_mk_fpa_eq)(ctx, toFp(e->a), toFp(e->b))); break;
    case FOLT: r = b1(K(Z3_mk_fpa_lt)(ctx, toFp(e->a), toFp(e->b))); break;
    case FOLE: r = b1(K(Z3_mk_fpa_leq)(ctx, toFp(e->a), toFp(e->b))); break;
    case FUNO: { Z3_ast x[2] = {K(Z3_mk_fpa_is_nan)(ctx, toFp(e->a)), K(Z3_mk_fpa_is_nan)(ctx, toFp(e->b))}; r = b1(K(Z3_mk_or)(ctx, 2, x)); break; }
    case F2SI: r = K(Z3_mk_fpa_to_sbv)(ctx, K(Z3_mk_fpa_rtz)(ctx), toFp(e->a), e->w); break;
    case F2UI: r = K(Z3_mk_fpa_to_ubv)(ctx, K(Z3_mk_fpa_rtz)(ctx), toFp(e->a), e->w); break;
    case SI2F: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_to_fp_signed)(ctx, rne(), A(), e->w == 32 ? K(Z3_mk_fpa_sort_32)(ctx) : K(Z3_mk_fpa_sort_64)(ctx))); break;
    case UI2F: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_to_fp_unsigned)(ctx, rne(), A(), e->w == 32 ? K(Z3_mk_fpa_sort_32)(ctx) : K(Z3_mk_fpa_sort_64)(ctx))); break;
    case FEXT: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_to_fp_float)(ctx, rne(), toFp(e->a), K(Z3_mk_fpa_sort_64)(ctx))); break;
    case FTRUNC: r = K(Z3_mk_fpa_to_ieee_bv)(ctx, K(Z3_mk_fpa_to_fp_float)(ctx, rne(), toFp(e->a), K(Z3_mk_fpa_sort_32)(ctx))); break;
    case UF: {
      auto &f = ufs[e->aux];
      if (!f) { Z3_sort d[2] = {bv(64), bv(64)}; f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, P.ufName[e->aux].c_str()), 2, d, bv(64)); Z3_inc_ref(ctx, (Z3_ast)f); }
      Z3_ast x[2] = {A(), B()};
      r = K(Z3_mk_app)(ctx, f, 2, x);
      break;
    }
    default: fprintf(stderr, "tr: bad op %d\n", e->op); abort();
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  return r;
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

int Solver::run(const std::vector<E> &fs, const std::vector<u32> &vars, CacheEnt &ent) {
  double t0 = now();
  st.queries++;
  Z3_lbool res = Z3_L_UNDEF;
  Z3_ast one = K(Z3_mk_unsigned_int64)(ctx, 1, bv(1));
  for (int attempt = 0; attempt < 2 && res == Z3_L_UNDEF; ++attempt) {
    Z3_solver s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), attempt == 0 ? std::min(timeoutMs, 20000u) : timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (E f : fs) { Z3_ast t = tr(f); Z3_ast q = K(Z3_mk_eq)(ctx, t, one); Z3_solver_assert(ctx, s, q); }
    if (attempt == 1) {      // a second opinion
      st.second++;
      std::vector<Z3_ast> ts; std::vector<std::string> vals;
      for (u32 v : vars) ts.push_back(tr(P.varExpr[v]));
      int r = externCheck(ctx, s, ts, timeoutMs, vals);
      res = r == 1 ? Z3_L_TRUE : r == 0 ? Z3_L_FALSE : Z3_L_UNDEF;
      if (r == 1) for (size_t i = 0; i < vars.size(); ++i) ent.model.push_back({vars[i], (u64)externNumber(vals[i])});
      Z3_solver_dec_ref(ctx, s);
      break;
    }
    res = Z3_solver_check(ctx, s);
    if (res == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (u32 v : vars) {
        Z3_ast o;
        u64 x = 0;
        if (Z3_model_eval(ctx, m, tr(P.varExpr[v]), true, &o)) Z3_get_numeral_uint64(ctx, o, &x);
        ent.model.push_back({v, x});
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_dec_ref(ctx, s);
  }
  double dt = now() - t0;
  static const char *slow = getenv("SYMEX_SLOW");
  if (slow && dt > atof(slow)) {
    fprintf(stderr, "slow query %.1fs res %d\n", dt, (int)res);
    for (E f : fs) fprintf(stderr, "   %s\n", showExpr(f, 12).c_str());
  }
  st.time += dt; st.maxTime = std::max(st.maxTime, dt);
  ent.res = res == Z3_L_TRUE ? 1 : res == Z3_L_FALSE ? 0 : -1;
  if (ent.res == 1) st.sat++; else if (ent.res == 0) st.unsat++; else st.unknown++;
  return ent.res;
}

int Solver::check(const std::vector<E> &cons, E q, const Model &base, Model *out) {
  if (isC(q)) { if (q->c && out) *out = base; return (int)q->c; }
  if (evalExpr(q, base)) { st.evalHits++; if (out) *out = base; return 1; }
  // relevant slice
  std::vector<char> in(P.varName.size(), 0);
  std::vector<u32> vs = *varsOf(q);
  for (u32 v : vs) in[v] = 1;
  std::vector<E> fs{q};
  std::vector<char> used(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); ++i) if (!used[i]) {
      auto *cv = varsOf(cons[i]);
      bool hit = false;
      for (u32 v : *cv) if (in[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; fs.push_back(cons[i]);
      for (u32 v : *cv) if (!in[v]) { in[v] = 1; vs.push_back(v); ch = true; }
    }
  }
  std::vector<u32> key;
  for (E f : fs) key.push_back(f->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it == cache.end()) {
    CacheEnt ent;
    run(fs, vs, ent);
    it = cache.emplace(std::move(key), std::move(ent)).first;
  } else st.cacheHits++;
  if (it->second.res == 1 && out) {
    *out = base;
    for (auto &kv : it->second.model) { if (out->size() <= kv.first) out->resize(kv.first + 1, 0); (*out)[kv.first] = kv.second; }
  }
  return it->second.res;
}
