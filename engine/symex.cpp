// Symbolic executor for LLVM IR.  Executes one harness entry point of a linked
// bitcode module over all values of its symbolic inputs, path by path; branch
// feasibility, assertions and memory safety are decided by an SMT solver.
#include "solver.h"
#include "realcheck.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <fstream>
#include <set>
#include <functional>
#include <algorithm>
#include <sys/resource.h>
using namespace llvm;

static const u64 OBASE = 0x100000000ULL, OSTEP = 1ULL << 26;
static const u64 FBASE = 0x1000;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { E e = nullptr; u64 c = 0; };
static inline Val C(u64 c) { Val v; v.c = c; return v; }
static inline Val V(E e) { Val v; if (e->op == CONST && e->w <= 64) v.c = (u64)e->c; else v.e = e; return v; }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }

// ---------------------------------------------------------------- memory
struct Obj {
  int rc = 1;
  uint8_t kind = 0;  // 1 global 2 stack 3 heap 4 exception
  bool ro = false;
  u64 size = 0;
  E symSize = nullptr;
  uint8_t *d = nullptr, *st = nullptr;  // st: 0 concrete 1 symbolic 2 uninitialised; null = all concrete
  E *sy = nullptr;
  Obj(u64 n, uint8_t k, bool uninit) : kind(k), size(n) {
    d = (uint8_t *)calloc(n ? n : 1, 1);
    if (uninit) { st = (uint8_t *)malloc(n ? n : 1); memset(st, 2, n); }
  }
  Obj(const Obj &o) : kind(o.kind), ro(o.ro), size(o.size), symSize(o.symSize) {
    d = (uint8_t *)malloc(size ? size : 1); memcpy(d, o.d, size);
    if (o.st) { st = (uint8_t *)malloc(size ? size : 1); memcpy(st, o.st, size); }
    if (o.sy) { sy = (E *)malloc(sizeof(E) * (size ? size : 1)); memcpy((void *)sy, o.sy, sizeof(E) * size); }
  }
  ~Obj() { free(d); free(st); free((void *)sy); }
  void needSt() { if (!st) { st = (uint8_t *)calloc(size ? size : 1, 1); } }
  void needSy() { needSt(); if (!sy) sy = (E *)calloc(size ? size : 1, sizeof(E)); }
};
static inline void unref(Obj *o) { if (o && --o->rc == 0) delete o; }
struct Page {
  int rc = 1;
  Obj *o[64] = {};
  Page() {}
  Page(const Page &p) { for (int i = 0; i < 64; ++i) if ((o[i] = p.o[i])) o[i]->rc++; }
  ~Page() { for (auto x : o) unref(x); }
};
struct Mem {
  std::vector<Page *> pg;
  u64 next = 0;
  Mem() {}
  Mem(const Mem &m) : pg(m.pg), next(m.next) { for (auto p : pg) if (p) p->rc++; }
  ~Mem() { for (auto p : pg) if (p && --p->rc == 0) delete p; }
  Obj *get(u64 idx) const { u64 p = idx >> 6; if (p >= pg.size() || !pg[p]) return nullptr; return pg[p]->o[idx & 63]; }
  Page *wp(u64 p) {
    if (p >= pg.size()) pg.resize(p + 1, nullptr);
    if (!pg[p]) pg[p] = new Page;
    else if (pg[p]->rc > 1) { pg[p]->rc--; pg[p] = new Page(*pg[p]); }
    return pg[p];
  }
  Obj *wr(u64 idx) {
    Page *p = wp(idx >> 6);
    Obj *&o = p->o[idx & 63];
    if (o && o->rc > 1) { o->rc--; o = new Obj(*o); }
    return o;
  }
  u64 add(Obj *o) { u64 i = next++; wp(i >> 6)->o[i & 63] = o; return i; }
  void del(u64 idx) {
    Page *p = wp(idx >> 6);
    unref(p->o[idx & 63]);
    p->o[idx & 63] = nullptr;
    bool any = false;
    for (auto x : p->o) if (x) { any = true; break; }
    if (!any && (next >> 6) > (idx >> 6)) { delete p; pg[idx >> 6] = nullptr; }
  }
};

// ---------------------------------------------------------------- code
struct Opnd { int slot = -1; Val k; };
struct Fn;
enum X : uint8_t { X_BIN, X_ICMP, X_FCMP, X_FBIN, X_FNEG, X_TRUNC, X_ZEXT, X_SEXT, X_FCAST, X_COPY, X_LOAD, X_STORE, X_GEP, X_ALLOCA,
  X_BR, X_CBR, X_SWITCH, X_RET, X_CALL, X_SELECT, X_LPAD, X_RESUME, X_EXTRACTV, X_INSERTV, X_UNREACH, X_RMW, X_CMPXCHG, X_NOP, X_UNSUP };
struct Ins {
  X x; uint8_t sub = 0; int dst = -1; unsigned w = 0, w2 = 0;
  const Instruction *I = nullptr;
  std::vector<Opnd> o;
  u64 imm = 0;
  std::vector<std::pair<int, u64>> gep;  // slot, scale (with operand width in gw)
  std::vector<unsigned> gw;
  int t = -1, f = -1;
  std::vector<std::pair<u64, int>> cases;
  Fn *callee = nullptr;
};
struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct BBk { std::vector<Phi> phis; std::vector<Ins> ins; };
struct Fn {
  Function *F = nullptr;
  std::string name;
  bool ready = false;
  std::vector<BBk> bbs;
  int nslots = 0;
  u64 addr = 0;
  u64 calls = 0;
  int builtin = -2;  // -2 unresolved
  std::vector<std::pair<int, u64>> byval;
  std::vector<char> covered;
};
struct Frame {
  Fn *fn; int bb = 0, prev = -1, ip = 0;
  std::vector<Val> r;
  std::vector<u64> allocas;
};
struct Caught { u64 obj; u64 ti; int handlers; bool rethrown; };
struct SymIn { std::string label; std::vector<u32> vars; };
struct ObsE { std::string label; Val v; unsigned w; };
struct State {
  std::vector<Frame> fr;
  Mem mem;
  std::vector<E> cons;
  Model model;
  std::vector<int64_t> known;
  std::vector<SymIn> ins;
  std::vector<ObsE> obs;
  std::vector<Caught> caught;
  u64 excObj = 0, excTi = 0; u64 excSel = 0;
  u64 steps = 0;
  u32 concCount = 0; u64 concAt = 0;
  u32 depth = 0;
  std::vector<std::string> trail;
  std::map<u64, std::string> text; std::map<u64, bool> textFmt;   // what was written to string streams; '?' where it is not modelled
};
struct PathEnd { std::string why; };

// ---------------------------------------------------------------- globals
static LLVMContext CTX;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static Solver S;
static std::map<const Function *, Fn *> fnOf;
static std::vector<Fn *> fns;
static std::map<std::string, Fn *> pseudo;
static std::map<const GlobalValue *, u64> gaddr;
static std::map<std::string, u64> extObj;   // external globals by name
static std::map<u64, std::string> tiName;   // typeinfo address -> name
static std::vector<State *> work;
static std::vector<u64> args;
static std::map<std::string, u64> reachN;
static std::map<std::string, u64> inconcl;
static std::map<std::string, u64> notes;
static std::map<std::string, int> varIdx;   // canonical var name -> number
static std::string outDir;
static double tStart, maxTime = 300;
static u64 maxSteps = 3000000, concLimit = 400, maxViol = 3, nSamples = 6, maxPaths = 0;
static u64 nPaths = 0, nForks = 0, nInstr = 0, nPruned = 0, nChecks = 0, nChecksSolved = 0, nUninit = 0, nStates = 0, nRange = 0;
static double deadline;
static bool stopAll = false;
static u32 seed = 1;

struct Viol { std::string kind, label, file, where; };
static std::vector<Viol> viols;
static std::vector<std::string> sampleFiles;
static bool verbose = false;

static Fn *getFn(const Function *F);
static void push(State *s) { nForks++; work.push_back(s); }

static std::string where(State &s) {
  std::string r;
  for (int i = (int)s.fr.size() - 1, n = 0; i >= 0 && n < 14; --i, ++n) {
    Frame &f = s.fr[i];
    std::string l = f.fn->name;
    auto &b = f.fn->bbs[f.bb];
    if (f.ip < (int)b.ins.size() && b.ins[f.ip].I)
      if (auto dl = b.ins[f.ip].I->getDebugLoc()) {
        l = std::string(dl->getFilename()) + ":" + std::to_string(dl.getLine());
        if (l.find("/usr/") == 0 ) l = l.substr(l.rfind('/') + 1);
      }
    if (n) r += " < ";
    r += l;
  }
  return r;
}
static void incon(State &s, const std::string &why) { inconcl[why]++; if (verbose) fprintf(stderr, "INCON %s @ %s\n", why.c_str(), where(s).c_str()); }

// ---------------------------------------------------------------- constraints
static E sub(State &s, E e) { return substExpr(e, s.known); }
// A comparison of a value with a constant: an interval, or one value left out.
struct Range { E base = nullptr; u128 lo = 0, hi = 0; bool ne = false; };
static bool asRange(E c, Range &r) {
  bool neg = false;
  r.ne = false;
  if (c->op == NOT) { neg = true; c = c->a; }
  if (c->w != 1 || !c->a || !c->b || c->a->w >= 100) return false;
  if (c->op == AND) {                      // equality of a value of several bytes, taken apart
    E e = nullptr; u128 k = 0;
    std::vector<std::pair<E, u64>> ps;
    std::vector<E> st{c};
    while (!st.empty()) {
      E x = st.back(); st.pop_back();
      if (x->op == AND) { st.push_back(x->b); st.push_back(x->a); continue; }
      if (x->op != EQ || !isC(x->a) || x->b->op != VAR || x->b->w > 8 || ps.size() == 8) return false;
      ps.push_back({x->b, (u64)x->a->c});
    }
    // little endian: the byte read last is the highest
    std::sort(ps.begin(), ps.end(), [](const std::pair<E, u64> &x, const std::pair<E, u64> &y) { return x.first->aux > y.first->aux; });
    for (auto &x : ps) {
      k = e ? k << x.first->w | x.second : x.second;
      e = e ? mkConcat(e, x.first) : x.first;
    }
    r.base = e; r.lo = r.hi = k; r.ne = neg;
    return true;
  }
  u128 m = maskw(c->a->w);
  if (c->op == EQ && isC(c->a)) { r.base = c->b; r.lo = r.hi = c->a->c; r.ne = neg; return true; }
  if (neg) return false;
  if (c->op != ULT && c->op != ULE) return false;
  u128 one = c->op == ULT;
  if (isC(c->a)) { r.base = c->b; r.lo = c->a->c + one; r.hi = m; return r.lo <= m; }
  if (isC(c->b)) { r.base = c->a; r.lo = 0; r.hi = c->b->c - one; return c->b->c >= one; }
  return false;
}
// what the path condition says about the values of e
static void boundsOf(State &s, E e, u128 &lo, u128 &hi) {
  lo = 0; hi = std::min(maskw(e->w), umax(e));
  Range r;
  for (E c : s.cons) if (asRange(c, r) && r.base == e && !r.ne) { lo = std::max(lo, r.lo); hi = std::min(hi, r.hi); }
  for (bool ch = true; ch && lo < hi;) {
    ch = false;
    for (E c : s.cons) if (asRange(c, r) && r.base == e && r.ne) { if (r.lo == lo) { lo++; ch = true; } else if (r.lo == hi) { hi--; ch = true; } if (lo >= hi) break; }
  }
}
static void addCons(State &s, E c) {
  c = sub(s, c);
  if (isC(c)) return;
  Range n;
  if (asRange(c, n)) {
    // keep the tightest interval only
    Range r;
    for (size_t i = 0; i < s.cons.size();) {
      E x = s.cons[i];
      if (x != c && asRange(x, r) && r.base == n.base) {
        bool xIn = !n.ne && !r.ne && r.lo <= n.lo && r.hi >= n.hi;         // the new one says more
        xIn |= !n.ne && r.ne && (r.lo < n.lo || r.lo > n.hi);
        bool nIn = !r.ne && !n.ne && n.lo <= r.lo && n.hi >= r.hi;         // the old one does
        nIn |= !r.ne && n.ne && (n.lo < r.lo || n.lo > r.hi);
        if (nIn) return;
        if (xIn) { s.cons.erase(s.cons.begin() + (long)i); continue; }
      }
      ++i;
    }
  }
  if (c->op == AND) { addCons(s, c->a); addCons(s, c->b); return; }
  if (c->op == NOT && c->a->op == OR) { addCons(s, mkNot(c->a->a)); addCons(s, mkNot(c->a->b)); return; }
  E v = nullptr; u64 k = 0;
  if (c->op == EQ && isC(c->a) && c->b->op == VAR) { v = c->b; k = (u64)c->a->c; }
  else if (c->op == VAR) { v = c; k = 1; }
  else if (c->op == NOT && c->a->op == VAR) { v = c->a; k = 0; }
  if (v) {
    if (s.known.size() <= v->aux) s.known.resize(v->aux + 1, -1);
    s.known[v->aux] = (int64_t)k;
    // simplify existing constraints that mention v
    std::vector<E> old; old.swap(s.cons);
    std::vector<E> redo;
    for (E x : old) {
      auto *vs = varsOf(x);
      if (std::binary_search(vs->begin(), vs->end(), v->aux)) { E y = sub(s, x); if (!isC(y)) redo.push_back(y); }
      else s.cons.push_back(x);
    }
    for (E x : redo) addCons(s, x);
    return;
  }
  for (E x : s.cons) if (x == c) return;
  s.cons.push_back(c);
}

static bool restricted = false;
// dump inputs under a model
static void dumpInput(const std::string &file, State &s, const Model &m, const std::string &kind, const std::string &label, const std::string &wh, bool obs) {
  std::ofstream o(file);
  o << "# kind " << kind << "\n# label " << label << "\n# where " << wh << "\n";
  for (u64 a : args) o << "A " << a << "\n";
  if (restricted) o << "R 1\n";
  for (auto &in : s.ins) {
    o << "I " << in.label << " ";
    if (in.vars.empty()) o << "-";
    for (u32 v : in.vars) { char b[4]; snprintf(b, 4, "%02x", (unsigned)(v < m.size() ? m[v] & 0xff : 0)); o << b; }
    o << "\n";
  }
  if (obs) for (auto &x : s.obs) {
    u64 v = x.v.e ? (u64)evalExpr(x.v.e, m) : x.v.c;
    o << "O " << x.label << " " << v << "\n";
  }
}
static std::set<std::string> violSeen;
static void violation(State &s, const std::string &kind, const std::string &label, const Model &m) {
  std::string wh = where(s);
  std::string loc = wh.substr(0, wh.find(" < "));
  std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : loc);
  if (!violSeen.insert(key).second) return;
  Viol v; v.kind = kind; v.label = label; v.where = wh;
  v.file = outDir + "/viol" + std::to_string(viols.size()) + ".in";
  dumpInput(v.file, s, m, kind, label, wh, false);
  viols.push_back(v);
  if (verbose) fprintf(stderr, "VIOL %s %s @ %s\n", kind.c_str(), label.c_str(), wh.c_str());
  if (viols.size() >= maxViol) stopAll = true;
}

// e is made of different variables only (the highest first)
static bool plainVars(E e, std::vector<E> &v) {
  if (e->op == VAR) { for (E x : v) if (x == e) return false; v.push_back(e); return true; }
  return e->op == CONCAT && plainVars(e->a, v) && plainVars(e->b, v);
}
// Sets of values as sorted disjoint intervals.
typedef std::vector<std::pair<u128, u128>> VSet;
static VSet inverse(const VSet &a, u128 m) {
  VSet r; u128 at = 0; bool end = false;
  for (auto &i : a) { if (i.first > at) r.push_back({at, i.first - 1}); if (i.second >= m) { end = true; break; } at = i.second + 1; }
  if (!end) r.push_back({at, m});
  return r;
}
static VSet common(const VSet &a, const VSet &b) {
  VSet r;
  for (size_t i = 0, j = 0; i < a.size() && j < b.size();) {
    u128 lo = std::max(a[i].first, b[j].first), hi = std::min(a[i].second, b[j].second);
    if (lo <= hi) r.push_back({lo, hi});
    if (a[i].second < b[j].second) ++i; else ++j;
  }
  return r;
}
static E firstBase(E c) {
  Range r;
  if (asRange(c, r)) return r.base;
  if (c->w != 1 || (c->op != AND && c->op != OR && c->op != NOT)) return nullptr;
  E x = firstBase(c->a);
  if (!x || c->op == NOT) return x;
  E y = firstBase(c->b);
  return y && y->w > x->w ? y : x;
}
// the values of base for which c, a combination of comparisons of base with constants, holds
static bool valuesOf(E c, E base, VSet &out, int depth = 0) {
  Range r;
  u128 m = maskw(base->w);
  if (asRange(c, r)) {
    if (r.base != base) return false;
    out = {{r.lo, r.hi}};
    if (r.ne) out = inverse(out, m);
    return true;
  }
  if (c->w != 1 || depth > 40) return false;
  VSet x, y;
  if (c->op == NOT) { if (!valuesOf(c->a, base, x, depth + 1)) return false; out = inverse(x, m); return true; }
  if (c->op != AND && c->op != OR) return false;
  if (!valuesOf(c->a, base, x, depth + 1) || !valuesOf(c->b, base, y, depth + 1)) return false;
  out = c->op == AND ? common(x, y) : inverse(common(inverse(x, m), inverse(y, m)), m);
  return true;
}
// Comparisons of one value with constants and nothing else about its bytes: decided by intervals.
// 1 and a model, 0, or -1 when there is more to it.
static int intervalSolve(State &s, E q, Model *out) {
  std::vector<E> v;
  E base = firstBase(q);
  if (!base || base->w > 64 || !plainVars(base, v)) return -1;
  VSet all, x;
  if (!valuesOf(q, base, all)) return -1;
  for (E c : s.cons) {
    auto *cv = varsOf(c);
    bool hit = false;
    for (E y : v) if (std::binary_search(cv->begin(), cv->end(), y->aux)) { hit = true; break; }
    if (!hit) continue;
    if (!valuesOf(c, base, x)) return -1;
    all = common(all, x);
    if (all.empty()) return 0;
  }
  if (all.empty()) return 0;
  if (out) {
    *out = s.model;
    unsigned sh = base->w;
    for (E y : v) {
      sh -= y->w;
      if (out->size() <= y->aux) out->resize(y->aux + 1, 0);
      (*out)[y->aux] = (u64)((all[0].first >> sh) & maskw(y->w));
    }
  }
  return 1;
}
static int feasible(State &s, E q, Model *out) {
  q = sub(s, q);
  Range n;
  {
    int k = intervalSolve(s, q, out);
    if (k < 0 && asRange(q, n)) {          // contradicted by the intervals already known
      u128 lo, hi;
      boundsOf(s, n.base, lo, hi);
      if (lo <= hi && (n.ne ? lo == hi && n.lo == lo : n.hi < lo || n.lo > hi)) k = 0;
    }
    if (k >= 0) {
      if (++nRange % 64 == 1) { int z = S.check(s.cons, q, s.model, nullptr); if (z >= 0 && z != k) incon(s, "interval reasoning contradicted by the solver"); }
      return k;
    }
  }
  double left = deadline - nowS();
  if (left <= 0) return -1;
  unsigned save = S.timeoutMs;
  S.timeoutMs = (unsigned)std::min((double)save, std::max(left * 1000.0, 100.0));
  int r = S.check(s.cons, q, s.model, out);
  S.timeoutMs = save;
  return r;
}

// must hold; reports a violation when it can fail, then assumes it
static void require(State &s, E ok, const std::string &kind, const std::string &label) {
  ok = sub(s, ok);
  if (isTrue(ok)) return;
  Model m;
  int r = isFalse(ok) ? (m = s.model, 1) : feasible(s, mkNot(ok), &m);
  if (r == -1) incon(s, "solver gave no answer for an assertion (" + label + ")");
  if (r == 1) {
    violation(s, kind, label, m);
    Model m2;
    if (isFalse(ok)) throw PathEnd{"violation"};
    int r2 = feasible(s, ok, &m2);
    if (r2 != 1) throw PathEnd{"violation"};
    s.model = m2;
  }
  addCons(s, ok);
}
static bool provable(State &s, E c) {
  c = sub(s, c);
  if (isC(c)) return c->c;
  if (!evalExpr(c, s.model)) return false;
  Model m;
  return feasible(s, mkNot(c), &m) == 0;
}
[[noreturn]] static void fatal(State &s, const std::string &kind, const std::string &label) {
  violation(s, kind, label, s.model);
  throw PathEnd{"violation"};
}
[[noreturn]] static void unsup(State &s, const std::string &why) { incon(s, "unsupported: " + why); throw PathEnd{"unsupported"}; }

static State *clone(State &s) { nStates++; return new State(s); }

// returns true/false for the continuing state; forks the other side
static bool branch(State &s, E c) {
  c = sub(s, c);
  if (isC(c)) return c->c;
  bool v = (bool)evalExpr(c, s.model);
  E nc = mkNot(c);
  Model m;
  int r = feasible(s, v ? nc : c, &m);
  if (r == -1) { incon(s, "solver gave no answer at a branch"); }
  if (r == 1) {
    State *t = clone(s);
    t->model = m; t->depth++;
    addCons(*t, v ? nc : c);
    push(t);   // re-executes the same instruction, now decided
    addCons(s, v ? c : nc);
    s.depth++;
  } else if (r == 0) {
    // implied: no new constraint needed for soundness, but record equalities
    E k = v ? c : nc;
    if (k->op == EQ || k->op == AND) addCons(s, k);
  } else addCons(s, v ? c : nc);
  return v;
}
static u64 concretize(State &s, const Val &x, unsigned w, const char *what) {
  if (!x.e) return x.c;
  E e = sub(s, x.e);
  if (isC(e)) return (u64)e->c;
  u64 v = (u64)evalExpr(e, s.model);
  E eq = mkBin(EQ, mkConst(w, v), e);
  Model m;
  int r = feasible(s, mkNot(eq), &m);
  if (r == -1) incon(s, std::string("solver gave no answer while concretizing a ") + what);
  if (r == 1) {
    if (++s.concCount > concLimit) { incon(s, std::string("too many values of a ") + what + " at " + where(s)); throw PathEnd{"limit"}; }
    State *t = clone(s);
    t->model = m; t->depth++;
    addCons(*t, mkNot(eq));
    push(t);
    s.depth++;
  }
  addCons(s, eq);
  return v;
}
// largest feasible value, by binary search
static u64 maxOf(State &s, E e) {
  e = sub(s, e);
  u64 lo = (u64)evalExpr(e, s.model), hi = m64(std::min(e->w, (uint16_t)64));
  unsigned zp = 0;
  if (e->op == CONCAT && isC(e->a) && e->a->c == 0) { zp = e->a->w; hi = m64(e->w - zp); }
  while (lo < hi) {
    u64 mid = lo + (hi - lo) / 2 + ((hi - lo) & 1);
    if (hi - lo == 1) mid = hi;
    Model m;
    int r = feasible(s, mkBin(ULE, mkConst(e->w, mid), e), &m);
    if (r == 1) { lo = std::max(mid, (u64)evalExpr(e, m)); }
    else if (r == 0) hi = mid - 1;
    else return hi;
  }
  return lo;
}

// ---------------------------------------------------------------- memory access
static u64 newObj(State &s, u64 n, uint8_t kind, bool uninit) {
  if (n > OSTEP / 2) { incon(s, "allocation larger than the model"); throw PathEnd{"limit"}; }
  Obj *o = new Obj(n, kind, uninit);
  return OBASE + s.mem.add(o) * OSTEP;
}
static Obj *find(State &s, u64 a, u64 &off) {
  if (a < OBASE) return nullptr;
  off = (a - OBASE) % OSTEP;
  return s.mem.get((a - OBASE) / OSTEP);
}
static Obj *findW(State &s, u64 a) { return s.mem.wr((a - OBASE) / OSTEP); }
static std::string hexs(u64 x) { char b[24]; snprintf(b, 24, "0x%llx", (unsigned long long)x); return b; }

// checks [a,a+n) with a concrete n
static Obj *access(State &s, u64 a, u64 n, bool write) {
  u64 off = 0;
  Obj *o = find(s, a, off);
  if (!o) fatal(s, "memory", a < 4096 ? "null dereference" : "access to memory that is not allocated");
  if (off + n > o->size || off > o->size) fatal(s, "memory", write ? "out-of-bounds write" : "out-of-bounds read");
  if (o->symSize && n) require(s, mkBin(ULE, mkConst(64, off + n), o->symSize), "memory", write ? "out-of-bounds write" : "out-of-bounds read");
  if (write && o->ro) fatal(s, "memory", "write to read-only memory");
  return o;
}
static E freshUninit() {
  nUninit++;
  return mkVar(8, "uninit" + std::to_string(nUninit));
}
static Val loadBits(State &s, u64 a, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = access(s, a, n, false);
  u64 off = (a - OBASE) % OSTEP;
  bool conc = true;
  if (o->st) for (unsigned i = 0; i < n; ++i) if (o->st[off + i]) { conc = false; break; }
  if (conc) {
    if (w <= 64) { u64 v = 0; memcpy(&v, o->d + off, n); return C(v & m64(w)); }
    u128 v = 0; memcpy(&v, o->d + off, n);
    return V(mkConst(w, v));
  }
  for (unsigned i = 0; i < n; ++i) if (o->st[off + i] == 2) {
    o = findW(s, a); o->needSy();
    for (unsigned j = 0; j < n; ++j) if (o->st[off + j] == 2) { o->st[off + j] = 1; o->sy[off + j] = freshUninit(); }
    break;
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    E b;
    if (o->st[off + i] == 0) b = mkConst(8, o->d[off + i]);
    else {
      b = o->sy[off + i];
      if (b->op == VAR && b->aux < s.known.size() && s.known[b->aux] >= 0) b = mkConst(8, (u64)s.known[b->aux]);
    }
    r = r ? mkConcat(b, r) : b;
  }
  if (r->w > w) r = mkExtract(r, 0, w);
  return V(r);
}
static void storeBits(State &s, u64 a, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  access(s, a, n, true);
  Obj *o = findW(s, a);
  u64 off = (a - OBASE) % OSTEP;
  if (!v.e) {
    u64 c = v.c & m64(w);
    memcpy(o->d + off, &c, n);
    if (o->st) memset(o->st + off, 0, n);
    return;
  }
  E e = v.e;
  if (e->w < n * 8) e = mkZExt(e, n * 8);
  if (isC(e)) { memcpy(o->d + off, &e->c, n); if (o->st) memset(o->st + off, 0, n); return; }
  o->needSy();
  for (unsigned i = 0; i < n; ++i) {
    E b = mkExtract(e, i * 8, 8);
    if (isC(b)) { o->d[off + i] = (uint8_t)b->c; o->st[off + i] = 0; }
    else { o->st[off + i] = 1; o->sy[off + i] = b; }
  }
}
static Val getAgg(const Val &v, unsigned i) {
  if (!v.e) return C(0);
  E k = i == 0 ? v.e->a : i == 1 ? v.e->b : v.e->d;
  if (!k) return C(0);
  return V(k);
}
static unsigned tyW(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy(); }
static Val loadTy(State &s, u64 a, Type *t) {
  if (!isAgg(t)) { unsigned w = tyW(t); if (!w) unsup(s, "load of this type"); return loadBits(s, a, w); }
  unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
  if (n > 3) unsup(s, "load of a large aggregate value");
  E f[3] = {};
  for (unsigned i = 0; i < n; ++i) {
    Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    u64 off = t->isStructTy() ? DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(et).getFixedValue();
    Val v = loadTy(s, a + off, et);
    f[i] = isAgg(et) ? v.e : toE(v, tyW(et));
  }
  Val r; r.e = P.intern(AGG, 1, f[0], f[1], f[2], n, 0);
  return r;
}
static void storeTy(State &s, u64 a, const Val &v, Type *t) {
  if (!isAgg(t)) { unsigned w = tyW(t); if (!w) unsup(s, "store of this type"); storeBits(s, a, v, w); return; }
  unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
  if (n > 3) unsup(s, "store of a large aggregate value");
  for (unsigned i = 0; i < n; ++i) {
    Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    u64 off = t->isStructTy() ? DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(et).getFixedValue();
    storeTy(s, a + off, getAgg(v, i), et);
  }
}
static void copyMem(State &s, u64 d, u64 a, u64 n) {
  if (!n) return;
  Obj *so = access(s, a, n, false);
  access(s, d, n, true);
  so->rc++;
  Obj *o = findW(s, d);
  u64 so_ = (a - OBASE) % OSTEP, od = (d - OBASE) % OSTEP;
  // source is pinned (rc>1) so writing to the same object works on a private copy
  memmove(o->d + od, so->d + so_, n);
  if (so->st) {
    o->needSt();
    memmove(o->st + od, so->st + so_, n);
    if (so->sy) { o->needSy(); memmove((void *)(o->sy + od), so->sy + so_, n * sizeof(E)); }
  } else if (o->st) memset(o->st + od, 0, n);
  unref(so);
}
static u64 ptrOf(State &s, const Val &v) { return concretize(s, v, 64, "pointer"); }
// size operand of a block operation, bounded by the objects involved
static u64 blockLen(State &s, const Val &n, std::vector<std::pair<u64, bool>> ptrs) {
  if (!n.e) return n.c;
  E e = sub(s, n.e);
  if (isC(e)) return (u64)e->c;
  for (auto &p : ptrs) {
    u64 off = 0;
    Obj *o = find(s, p.first, off);
    E nz = mkBin(EQ, mkConst(64, 0), e);
    if (!o) { require(s, nz, "memory", "access to memory that is not allocated"); continue; }
    E room = o->symSize ? mkBin(SUB, o->symSize, mkConst(64, off)) : mkConst(64, off <= o->size ? o->size - off : 0);
    require(s, mkBin(ULE, e, room), "memory", p.second ? "out-of-bounds write" : "out-of-bounds read");
  }
  return concretize(s, V(e), 64, "block length");
}
static u64 allocHeap(State &s, const Val &nv, bool zero) {
  Val n = nv;
  if (n.e) n = V(sub(s, n.e));
  if (!n.e) {
    if (n.c > (1ULL << 24)) return 0;
    return newObj(s, n.c, 3, !zero);
  }
  // symbolic size: small ranges are enumerated, large ones become one object with a symbolic bound
  u64 mx = maxOf(s, n.e);
  if (mx <= 64 || varsOf(n.e)->size() == 0) return newObj(s, concretize(s, n, 64, "allocation size"), 3, !zero);
  if (mx > (1ULL << 22)) {
    E big = mkBin(ULT, mkConst(64, 1ULL << 22), n.e);
    if (branch(s, big)) return 0;
    mx = 1ULL << 22;
  }
  u64 a = newObj(s, mx, 3, !zero);
  findW(s, a)->symSize = n.e;
  return a;
}
static void freeHeap(State &s, u64 a) {
  if (!a) return;
  u64 off = 0;
  Obj *o = find(s, a, off);
  if (!o || o->kind != 3) fatal(s, "memory", "double free or free of a pointer that is not allocated");
  if (off) fatal(s, "memory", "free of an interior pointer");
  s.mem.del((a - OBASE) / OSTEP);
}
static std::string cstr(State &s, u64 a) {
  std::string r;
  for (int i = 0; i < 4096; ++i) {
    Val v = loadBits(s, a + i, 8);
    if (v.e) unsup(s, "symbolic label");
    if (!v.c) break;
    r += (char)v.c;
  }
  return r;
}

// ---------------------------------------------------------------- constants
static u64 fnAddr(const Function *F) { return getFn(F)->addr; }
static u64 addrOf(const GlobalValue *g) {
  if (auto *f = dyn_cast<Function>(g)) {
    if (f->isDeclaration() && f->hasExternalWeakLinkage()) return 0;
    return fnAddr(f);
  }
  if (auto *al = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
  auto it = gaddr.find(g);
  if (it == gaddr.end()) { fprintf(stderr, "no address for global %s\n", g->getName().str().c_str()); exit(2); }
  return it->second;
}
static Val constVal(const Constant *c);
static u128 constInt(const Constant *c) {
  Val v = constVal(c);
  return v.e ? v.e->c : v.c;
}
static Val constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() <= 64) return C(i->getZExtValue());
    u128 v = i->getValue().getRawData()[0] | ((u128)i->getValue().getRawData()[1] << 64);
    Val r; r.e = mkConst(i->getBitWidth(), v); return r;
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) return C(f->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(c)) return C(0);
  if (auto *g = dyn_cast<GlobalValue>(c)) return C(addrOf(g));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (isAgg(c->getType())) { Val r; r.e = P.intern(AGG, 1, 0, 0, 0, 0, 0); return r; }
    return C(0);
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    if (ca->getNumOperands() > 3) { fprintf(stderr, "large constant aggregate value\n"); exit(2); }
    E f[3] = {};
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) { Val v = constVal(ca->getOperand(i)); f[i] = isAgg(ca->getOperand(i)->getType()) ? v.e : toE(v, tyW(ca->getOperand(i)->getType())); }
    Val r; r.e = P.intern(AGG, 1, f[0], f[1], f[2], ca->getNumOperands(), 0); return r;
  }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return C((u64)constInt(e->getOperand(0)) & m64(tyW(e->getType())));
      case Instruction::Trunc: return C((u64)constInt(e->getOperand(0)) & m64(tyW(e->getType())));
      case Instruction::GetElementPtr: {
        auto *g = cast<GEPOperator>(e);
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "odd constant gep\n"); exit(2); }
        return C((u64)constInt(cast<Constant>(g->getPointerOperand())) + off.getSExtValue());
      }
      case Instruction::Add: return C((u64)(constInt(e->getOperand(0)) + constInt(e->getOperand(1))) & m64(tyW(e->getType())));
      case Instruction::Sub: return C((u64)(constInt(e->getOperand(0)) - constInt(e->getOperand(1))) & m64(tyW(e->getType())));
      case Instruction::ICmp: {
        auto p = e->getPredicate(); u64 a = (u64)constInt(e->getOperand(0)), b = (u64)constInt(e->getOperand(1));
        return C(p == ICmpInst::ICMP_EQ ? a == b : p == ICmpInst::ICMP_NE ? a != b : 0);
      }
      default: break;
    }
  }
  std::string t; raw_string_ostream os(t); c->print(os);
  fprintf(stderr, "unsupported constant %s\n", t.substr(0, 200).c_str());
  exit(2);
}
static void initConst(uint8_t *d, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { auto r = ds->getRawDataValues(); memcpy(d, r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) initConst(d + sl->getElementOffset(i).getFixedValue(), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(d + i * es, ca->getOperand(i));
    return;
  }
  unsigned w = tyW(t);
  if (!w) { fprintf(stderr, "unsupported initializer\n"); exit(2); }
  u128 v = constInt(c);
  memcpy(d, &v, (w + 7) / 8);
}

// ---------------------------------------------------------------- decoding
static int builtinId(const std::string &n, const Function *F);
static Fn *getFn(const Function *F) {
  auto it = fnOf.find(F);
  if (it != fnOf.end()) return it->second;
  Fn *f = new Fn;
  f->F = const_cast<Function *>(F);
  f->name = F->getName().str();
  f->addr = FBASE + fns.size() * 16;
  fns.push_back(f);
  fnOf[F] = f;
  return f;
}
static Fn *pseudoFn(const std::string &n) {
  auto &p = pseudo[n];
  if (!p) { p = new Fn; p->name = n; p->addr = FBASE + fns.size() * 16; fns.push_back(p); p->ready = true; }
  return p;
}
static void decode(Fn *f) {
  Function *F = f->F;
  f->ready = true;
  std::map<const Value *, int> slot;
  std::map<const BasicBlock *, int> bbn;
  int n = 0;
  for (auto &a : F->args()) {
    slot[&a] = n;
    if (a.hasByValAttr()) f->byval.push_back({n, DL->getTypeAllocSize(a.getParamByValType()).getFixedValue()});
    n++;
  }
  int k = 0;
  for (auto &b : *F) { bbn[&b] = k++; for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
  f->nslots = n;
  f->covered.assign(k, 0);
  auto op = [&](const Value *v) {
    Opnd o;
    if (auto *c = dyn_cast<Constant>(v)) o.k = constVal(c);
    else { auto it = slot.find(v); if (it == slot.end()) { o.slot = -1; } else o.slot = it->second; }
    return o;
  };
  for (auto &b : *F) {
    f->bbs.emplace_back();
    BBk &B = f->bbs.back();
    for (auto &i : b) {
      if (auto *p = dyn_cast<PHINode>(&i)) {
        Phi ph; ph.dst = slot[p];
        for (unsigned j = 0; j < p->getNumIncomingValues(); ++j) ph.in.push_back({bbn[p->getIncomingBlock(j)], op(p->getIncomingValue(j))});
        B.phis.push_back(ph);
        continue;
      }
      Ins x; x.I = &i; x.x = X_UNSUP;
      if (!i.getType()->isVoidTy()) x.dst = slot[&i];
      x.w = tyW(i.getType());
      auto ops = [&](unsigned c) { for (unsigned j = 0; j < c; ++j) x.o.push_back(op(i.getOperand(j))); };
      if (i.getType()->isVectorTy()) { B.ins.push_back(x); continue; }
      switch (i.getOpcode()) {
        case Instruction::Add: x.sub = ADD; goto bin; case Instruction::Sub: x.sub = SUB; goto bin;
        case Instruction::Mul: x.sub = MUL; goto bin; case Instruction::UDiv: x.sub = UDIV; goto bin;
        case Instruction::SDiv: x.sub = SDIV; goto bin; case Instruction::URem: x.sub = UREM; goto bin;
        case Instruction::SRem: x.sub = SREM; goto bin; case Instruction::And: x.sub = AND; goto bin;
        case Instruction::Or: x.sub = OR; goto bin; case Instruction::Xor: x.sub = XOR; goto bin;
        case Instruction::Shl: x.sub = SHL; goto bin; case Instruction::LShr: x.sub = LSHR; goto bin;
        case Instruction::AShr: x.sub = ASHR;
        bin: x.x = X_BIN; ops(2); break;
        case Instruction::FAdd: x.sub = FADD; goto fbin; case Instruction::FSub: x.sub = FSUB; goto fbin;
        case Instruction::FMul: x.sub = FMUL; goto fbin; case Instruction::FDiv: x.sub = FDIV;
        fbin: if (x.w) x.x = X_FBIN; ops(2); break;
        case Instruction::FNeg: x.x = X_FNEG; ops(1); break;
        case Instruction::ICmp: x.x = X_ICMP; x.sub = cast<ICmpInst>(i).getPredicate(); ops(2); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w2) x.x = X_UNSUP; break;
        case Instruction::FCmp: x.x = X_FCMP; x.sub = cast<FCmpInst>(i).getPredicate(); ops(2); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w2) x.x = X_UNSUP; break;
        case Instruction::Trunc: x.x = X_TRUNC; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); break;
        case Instruction::ZExt: x.x = X_ZEXT; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); break;
        case Instruction::SExt: x.x = X_SEXT; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          ops(1); x.w2 = tyW(i.getOperand(0)->getType());
          x.x = x.w < x.w2 ? X_TRUNC : x.w > x.w2 ? X_ZEXT : X_COPY; break;
        }
        case Instruction::BitCast: case Instruction::Freeze: x.x = X_COPY; ops(1); break;
        case Instruction::FPExt: x.x = X_FCAST; x.sub = FEXT; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w) x.x = X_UNSUP; break;
        case Instruction::FPTrunc: x.x = X_FCAST; x.sub = FTRUNC; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w2) x.x = X_UNSUP; break;
        case Instruction::FPToSI: x.x = X_FCAST; x.sub = F2SI; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w2) x.x = X_UNSUP; break;
        case Instruction::FPToUI: x.x = X_FCAST; x.sub = F2UI; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w2) x.x = X_UNSUP; break;
        case Instruction::SIToFP: x.x = X_FCAST; x.sub = SI2F; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w) x.x = X_UNSUP; break;
        case Instruction::UIToFP: x.x = X_FCAST; x.sub = UI2F; ops(1); x.w2 = tyW(i.getOperand(0)->getType()); if (!x.w) x.x = X_UNSUP; break;
        case Instruction::Load: if (!i.getType()->isVectorTy()) x.x = X_LOAD; ops(1); break;
        case Instruction::Store: if (!i.getOperand(0)->getType()->isVectorTy()) x.x = X_STORE; ops(2); x.w = tyW(i.getOperand(0)->getType()); break;
        case Instruction::GetElementPtr: {
          auto &g = cast<GetElementPtrInst>(i);
          x.x = X_GEP; x.o.push_back(op(g.getPointerOperand()));
          u64 off = 0;
          for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) {
            Value *ix = gt.getOperand();
            if (StructType *st = gt.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue();
            else {
              u64 sc = DL->getTypeAllocSize(gt.getIndexedType()).getFixedValue();
              if (auto *ci = dyn_cast<ConstantInt>(ix)) off += sc * (u64)ci->getSExtValue();
              else { x.gep.push_back({op(ix).slot, sc}); x.gw.push_back(tyW(ix->getType())); }
            }
          }
          x.imm = off; break;
        }
        case Instruction::Alloca: {
          auto &a = cast<AllocaInst>(i);
          x.x = X_ALLOCA; x.imm = DL->getTypeAllocSize(a.getAllocatedType()).getFixedValue(); x.o.push_back(op(a.getArraySize())); break;
        }
        case Instruction::Br: {
          auto &br = cast<BranchInst>(i);
          if (br.isConditional()) { x.x = X_CBR; x.o.push_back(op(br.getCondition())); x.t = bbn[br.getSuccessor(0)]; x.f = bbn[br.getSuccessor(1)]; }
          else { x.x = X_BR; x.t = bbn[br.getSuccessor(0)]; }
          break;
        }
        case Instruction::Switch: {
          auto &sw = cast<SwitchInst>(i);
          x.x = X_SWITCH; x.o.push_back(op(sw.getCondition())); x.w2 = tyW(sw.getCondition()->getType());
          x.t = bbn[sw.getDefaultDest()];
          for (auto c : sw.cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbn[c.getCaseSuccessor()]});
          break;
        }
        case Instruction::Ret: x.x = X_RET; if (i.getNumOperands()) { ops(1); } break;
        case Instruction::Unreachable: x.x = X_UNREACH; break;
        case Instruction::Select: x.x = X_SELECT; ops(3); if (i.getOperand(0)->getType()->isVectorTy()) x.x = X_UNSUP; break;
        case Instruction::ExtractValue: x.x = X_EXTRACTV; ops(1); break;
        case Instruction::InsertValue: x.x = X_INSERTV; ops(2); break;
        case Instruction::LandingPad: x.x = X_LPAD; break;
        case Instruction::Resume: x.x = X_RESUME; ops(1); break;
        case Instruction::Fence: x.x = X_NOP; break;
        case Instruction::AtomicRMW: x.x = X_RMW; ops(2); break;
        case Instruction::AtomicCmpXchg: x.x = X_CMPXCHG; ops(3); x.w2 = tyW(i.getOperand(1)->getType()); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto &cb = cast<CallBase>(i);
          x.x = X_CALL;
          if (isa<DbgInfoIntrinsic>(i)) { x.x = X_NOP; break; }
          if (cb.isInlineAsm()) { x.x = cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty() ? X_NOP : X_UNSUP; break; }
          const Function *cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCastsAndAliases());
          if (cf && cf->isIntrinsic()) switch (cf->getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
            case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation:
              x.x = X_NOP; break;
            default: break;
          }
          if (x.x == X_NOP) break;
          for (unsigned j = 0; j < cb.arg_size(); ++j) x.o.push_back(op(cb.getArgOperand(j)));
          if (cf) x.callee = getFn(cf); else x.o.push_back(op(cb.getCalledOperand()));
          if (auto *iv = dyn_cast<InvokeInst>(&i)) { x.t = bbn[iv->getNormalDest()]; x.f = bbn[iv->getUnwindDest()]; }
          break;
        }
        default: break;
      }
      B.ins.push_back(std::move(x));
    }
  }
}

// ---------------------------------------------------------------- frames
static void enter(State &s, Fn *f, const std::vector<Val> &a) {
  if (!f->ready) decode(f);
  f->calls++;
  if (s.fr.size() > 400) fatal(s, "stack", "runaway recursion");
  s.fr.emplace_back();
  Frame &n = s.fr.back();
  n.fn = f;
  n.r.resize(f->nslots);
  for (size_t i = 0; i < a.size() && (int)i < f->nslots; ++i) n.r[i] = a[i];
  f->covered[0] = 1;
  for (auto &bv : f->byval) {
    u64 src = ptrOf(s, n.r[bv.first]);
    u64 c = newObj(s, bv.second, 2, true);
    copyMem(s, c, src, bv.second);
    s.fr.back().allocas.push_back(c);
    s.fr.back().r[bv.first] = C(c);
  }
}
static void popFrame(State &s) {
  for (u64 a : s.fr.back().allocas) s.mem.del((a - OBASE) / OSTEP);
  s.fr.pop_back();
}
static inline Val get(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.r[o.slot] : o.k; }
static void jump(State &s, int bb) {
  Frame &f = s.fr.back();
  f.prev = f.bb; f.bb = bb; f.ip = 0;
  f.fn->covered[bb] = 1;
  auto &ph = f.fn->bbs[bb].phis;
  if (ph.empty()) return;
  if (ph.size() == 1) {
    for (auto &in : ph[0].in) if (in.first == f.prev) { f.r[ph[0].dst] = get(f, in.second); return; }
  }
  std::vector<Val> tmp;
  for (auto &p : ph) for (auto &in : p.in) if (in.first == f.prev) { tmp.push_back(get(f, in.second)); break; }
  for (size_t i = 0; i < ph.size(); ++i) f.r[ph[i].dst] = tmp[i];
}
static void finishCall(State &s, const Val &v) {  // current frame's instruction is the call
  Frame &f = s.fr.back();
  const Ins &x = f.fn->bbs[f.bb].ins[f.ip];
  if (x.dst >= 0) f.r[x.dst] = v;
  if (x.t >= 0) jump(s, x.t); else f.ip++;
  s.concCount = 0;
}

// ---------------------------------------------------------------- exceptions
static u64 extGlobal(const std::string &n);
static std::string tiOf(u64 a) { auto it = tiName.find(a); return it == tiName.end() ? "" : it->second; }
static const std::map<std::string, std::string> stdBase = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
  {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
  {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
  {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
  {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}};
// -1: no; otherwise offset of base within thrown
static int derives(State &s, u64 t, u64 b) {
  if (t == b) return 0;
  std::string n = tiOf(t);
  auto it = stdBase.find(n);
  if (it != stdBase.end()) return derives(s, extGlobal(it->second), b);
  if (n == "_ZTISt9exception" || n.empty()) return -1;
  GlobalVariable *g = M->getGlobalVariable(n, true);
  if (!g || !g->hasInitializer()) return -1;
  auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
  if (!cs) return -1;
  std::string kind = cs->getOperand(0)->stripInBoundsOffsets()->getName().str();
  if (kind.find("__si_class") != std::string::npos) return derives(s, (u64)constInt(cs->getOperand(2)), b);
  if (kind.find("__vmi_class") != std::string::npos) {
    unsigned nb = (unsigned)constInt(cs->getOperand(3));
    for (unsigned i = 0; i < nb; ++i) {
      u64 bt = (u64)constInt(cs->getOperand(4 + 2 * i));
      int64_t fl = (int64_t)constInt(cs->getOperand(5 + 2 * i));
      int r = derives(s, bt, b);
      if (r >= 0) return r + (int)(fl >> 8);
    }
  }
  return -1;
}
static std::map<u64, u64> tiSel;
static u64 selOf(u64 ti) { auto &x = tiSel[ti]; if (!x) x = tiSel.size(); return x; }
static void unwind(State &s, u64 obj, u64 ti, bool first) {
  // the current instruction of the top frame raised; search handlers
  (void)first;
  while (true) {
    if (s.fr.empty()) fatal(s, "exception", "uncaught");
    Frame &f = s.fr.back();
    const Ins &x = f.fn->bbs[f.bb].ins[f.ip];
    if (x.x == X_CALL && x.f >= 0) {
      const BBk &lb = f.fn->bbs[x.f];
      const LandingPadInst *lp = nullptr;
      for (auto &i : lb.ins) if (i.x == X_LPAD) { lp = cast<LandingPadInst>(i.I); break; }
      if (!lp) unsup(s, "unwind destination without landingpad");
      bool take = lp->isCleanup(); u64 sel = 0; int adj = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) {
          Constant *c = lp->getClause(i);
          if (c->isNullValue()) { take = true; sel = selOf(0); break; }
          u64 ct = (u64)constInt(c);
          int d = derives(s, ti, ct);
          if (d >= 0) { take = true; sel = selOf(ct); adj = d; break; }
        } else {  // filter: treat as a match when nothing in it matches
          unsigned n = cast<ArrayType>(lp->getClause(i)->getType())->getNumElements();
          bool ok = false;
          for (unsigned j = 0; j < n; ++j) { u64 ct = (u64)constInt(cast<Constant>(cast<ConstantArray>(lp->getClause(i))->getOperand(j))); if (derives(s, ti, ct) >= 0) ok = true; }
          if (!ok) { take = true; sel = (u64)(int64_t)-1; break; }
        }
      }
      if (take) {
        if (adj) unsup(s, "exception base-class adjustment");
        s.excObj = obj; s.excTi = ti; s.excSel = sel;
        jump(s, x.f);
        return;
      }
    }
    if (f.fn->F && f.fn->F->doesNotThrow()) fatal(s, "exception", "exception leaves a noexcept function (" + tiOf(ti) + ")");
    if (s.fr.size() == 1) fatal(s, "exception", "uncaught " + tiOf(ti));
    popFrame(s);
  }
}
static u64 makeExc(State &s, u64 n) { return newObj(s, n, 4, false); }
static void throwStd(State &s, const char *ti) {
  u64 o = makeExc(s, 64);
  std::string vt = std::string("_ZTV") + (ti + 4);
  storeBits(s, o, C(extGlobal(vt) + 16), 64);
  unwind(s, o, extGlobal(ti), true);
}

// ---------------------------------------------------------------- external objects
static u64 emptyStr = 0;
static State *bootState = nullptr;
static u64 extGlobal(const std::string &n) {
  if (GlobalVariable *g = M->getGlobalVariable(n, true)) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; }
  auto it = extObj.find(n);
  if (it != extObj.end()) return it->second;
  fprintf(stderr, "internal: external global %s requested late\n", n.c_str());
  exit(2);
}
static void mkExt(State &s, const std::string &n) {
  if (extObj.count(n)) return;
  if (GlobalVariable *g = M->getGlobalVariable(n, true)) if (!g->isDeclaration()) return;
  u64 a = newObj(s, 512, 1, false);
  extObj[n] = a;
  Obj *o = findW(s, a);
  if (n.rfind("_ZTV", 0) == 0) {
    u64 w = pseudoFn("__ext_virtual")->addr;
    for (int i = 0; i < 64; ++i) memcpy(o->d + i * 8, &w, 8);
    u64 z = 0; memcpy(o->d, &z, 8); memcpy(o->d + 8, &z, 8);
    o->ro = true;
  } else if (n.rfind("_ZTI", 0) == 0) { tiName[a] = n; o->ro = true; }
  else if (n == "__libc_single_threaded") o->d[0] = 1;
}

// ---------------------------------------------------------------- builtins
typedef std::function<void(State &, const std::vector<Val> &, const Ins &)> BI;
static std::vector<BI> bi;
static std::map<std::string, int> biName;
static void ret(State &s, const Val &v = Val()) { finishCall(s, v); }
static void retStr(State &s, u64 p) {  // construct an empty std::string at p
  storeBits(s, p, C(p + 16), 64); storeBits(s, p + 8, C(0), 64); storeBits(s, p + 16, C(0), 8);
}

static void retText(State &s, u64 p, const std::string &t) {
  if (t.empty()) { retStr(s, p); return; }
  u64 d = t.size() < 16 ? p + 16 : newObj(s, t.size() + 1, 3, true);
  storeBits(s, p, C(d), 64); storeBits(s, p + 8, C(t.size()), 64);
  if (t.size() >= 16) storeBits(s, p + 16, C(t.size()), 64);
  for (size_t i = 0; i <= t.size(); ++i) storeBits(s, d + i, C(i < t.size() ? (uint8_t)t[i] : 0), 8);
}
static std::string *textOf(State &s, u64 p) {
  auto it = s.text.upper_bound(p);
  if (it == s.text.begin()) return nullptr;
  --it;
  return p - it->first < 376 ? &it->second : nullptr;
}
static std::string textBytes(State &s, const Val &ptr, const Val &len) {
  if (ptr.e || len.e) return "?";
  std::string r;
  for (u64 i = 0; i < len.c && i < 4096; ++i) { Val v = loadBits(s, ptr.c + i, 8); r += v.e ? '?' : (char)v.c; }
  return r;
}

static u32 symVar(State &s, const std::string &label, size_t ord, size_t i) {
  std::string n = std::to_string(ord) + ":" + label + "[" + std::to_string(i) + "]";
  auto it = varIdx.find(n);
  if (it != varIdx.end()) return it->second;
  E e = mkVar(8, n);
  varIdx[n] = e->aux;
  return e->aux;
}
static E symBytes(State &s, const std::string &label, unsigned n, u64 dst) {
  SymIn in; in.label = label;
  size_t ord = s.ins.size();
  E r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    u32 v = symVar(s, label, ord, i);
    in.vars.push_back(v);
    E b = P.varExpr[v];
    if (dst) storeBits(s, dst + i, V(b), 8);
    else r = r ? mkConcat(b, r) : b;
  }
  s.ins.push_back(in);
  return r;
}
static E loadByteE(State &s, u64 a) { return toE(loadBits(s, a, 8), 8); }
static void memcmpB(State &s, const std::vector<Val> &a, bool eqOnly) {
  u64 p = ptrOf(s, a[0]), q = ptrOf(s, a[1]);
  u64 n = blockLen(s, a[2], {{p, false}, {q, false}});
  if (n) { access(s, p, n, false); access(s, q, n, false); }
  // result built from the last byte backwards: 0, or sign of first difference
  E r = mkConst(32, 0);
  for (u64 i = n; i-- > 0;) {
    E x = loadByteE(s, p + i), y = loadByteE(s, q + i);
    E eq = mkBin(EQ, x, y);
    if (isTrue(eq)) continue;
    E d = eqOnly ? mkConst(32, 1) : mkBin(SUB, mkZExt(x, 32), mkZExt(y, 32));
    r = mkIte(eq, r, d);
  }
  ret(s, V(r));
}
static E truthE(State &s, const Val &v, unsigned w) { return v.e ? mkNot(mkBin(EQ, mkConst(v.e->w, 0), v.e)) : mkBool((v.c & m64(w)) != 0); }

static void addB(const char *n, BI f) { biName[n] = bi.size(); bi.push_back(std::move(f)); }
static void initBuiltins() {
#define B(name) addB(name, [](State &s, const std::vector<Val> &a, const Ins &x) { (void)a; (void)x;
#define EB });
  B("_Znwm") u64 p = allocHeap(s, a[0], false); if (!p) { throwStd(s, "_ZTISt9bad_alloc"); return; } ret(s, C(p)); EB
  B("_Znam") u64 p = allocHeap(s, a[0], false); if (!p) { throwStd(s, "_ZTISt9bad_alloc"); return; } ret(s, C(p)); EB
  B("_ZnwmRKSt9nothrow_t") u64 p = allocHeap(s, a[0], false); ret(s, C(p)); EB
  B("malloc") u64 p = allocHeap(s, a[0], false); ret(s, C(p)); EB
  B("calloc") Val n = V(mkBin(MUL, toE(a[0], 64), toE(a[1], 64))); u64 p = allocHeap(s, n, true); ret(s, C(p)); EB
  B("free") u64 p = ptrOf(s, a[0]); freeHeap(s, p); ret(s); EB
  biName["_ZdlPv"] = biName["_ZdlPvm"] = biName["_ZdaPv"] = biName["_ZdaPvm"] = biName["_ZdlPvSt11align_val_t"] = biName["free"];
  B("memcmp") memcmpB(s, a, false); EB
  B("bcmp") memcmpB(s, a, true); EB
  B("strlen") u64 p = ptrOf(s, a[0]); u64 i = 0;
    for (;; ++i) { E b = loadByteE(s, p + i); if (branch(s, mkBin(EQ, mkConst(8, 0), b))) break; }
    ret(s, C(i)); EB
  B("strcmp") u64 p = ptrOf(s, a[0]), q = ptrOf(s, a[1]); u64 i = 0;
    for (;; ++i) { Val b = loadBits(s, p + i, 8), c = loadBits(s, q + i, 8); if (b.e || c.e) unsup(s, "strcmp on symbolic text"); if (b.c != c.c || !b.c) { ret(s, C((u64)(uint32_t)((int)b.c - (int)c.c))); return; } }
    EB
  B("memchr") u64 p = ptrOf(s, a[0]); u64 n = blockLen(s, a[2], {{p, false}});
    E c = mkExtract(toE(a[1], 32), 0, 8);
    for (u64 i = 0; i < n; ++i) if (branch(s, mkBin(EQ, loadByteE(s, p + i), c))) { ret(s, C(p + i)); return; }
    ret(s, C(0)); EB
  auto cpy = [](State &s, const std::vector<Val> &a, const Ins &) {
    u64 d = ptrOf(s, a[0]), p = ptrOf(s, a[1]);
    u64 od = 0, op = 0;
    Obj *D = find(s, d, od), *Q = find(s, p, op);
    Val nv = a[2]; if (nv.e) nv = V(sub(s, nv.e));
    if (nv.e && D && Q && D->symSize && Q->symSize && od <= D->size && op <= Q->size) {
      // whole tail of one object of symbolic size into the whole tail of another
      E ed = mkBin(ADD, mkConst(64, od), nv.e), es = mkBin(ADD, mkConst(64, op), nv.e);
      if (provable(s, mkBin(EQ, ed, D->symSize)) && provable(s, mkBin(EQ, es, Q->symSize))) {
        u64 k = std::min(D->size - od, Q->size - op);
        E ds = D->symSize, qs = Q->symSize;
        findW(s, d)->symSize = nullptr; findW(s, p)->symSize = nullptr;
        copyMem(s, d, p, k);
        findW(s, d)->symSize = ds; findW(s, p)->symSize = qs;
        ret(s, C(d)); return;
      }
    }
    u64 n = blockLen(s, nv, {{d, true}, {p, false}});
    copyMem(s, d, p, n);
    ret(s, C(d));
  };
  addB("memcpy", cpy); addB("memmove", cpy);
  B("memset") u64 d = ptrOf(s, a[0]);
    Val v = a[1].e ? V(mkExtract(a[1].e, 0, 8)) : C(a[1].c & 0xff);
    u64 off = 0; Obj *o = find(s, d, off);
    Val n = a[2]; if (n.e) n = V(sub(s, n.e));
    if (n.e && o && o->symSize && !o->ro && off <= o->size) {
      // fill up to the end of an object of symbolic size
      E end = mkBin(ADD, mkConst(64, off), n.e);
      require(s, mkBin(ULE, end, o->symSize), "memory", "out-of-bounds write");
      if (provable(s, mkBin(EQ, end, o->symSize))) {
        o = findW(s, d);
        if (v.e) unsup(s, "symbolic fill");
        memset(o->d + off, (int)v.c, o->size - off); if (o->st) memset(o->st + off, 0, o->size - off);
        ret(s, C(d)); return;
      }
    }
    u64 k = blockLen(s, n, {{d, true}});
    if (k) {
      access(s, d, k, true);
      o = findW(s, d); off = (d - OBASE) % OSTEP;
      if (!v.e) { memset(o->d + off, (int)v.c, k); if (o->st) memset(o->st + off, 0, k); }
      else for (u64 i = 0; i < k; ++i) storeBits(s, d + i, v, 8);
    }
    ret(s, C(d)); EB
  // exceptions
  B("__cxa_allocate_exception") ret(s, C(makeExc(s, std::max<u64>(a[0].c, 64)))); EB
  B("__cxa_free_exception") s.mem.del((a[0].c - OBASE) / OSTEP); ret(s); EB
  B("__cxa_throw") unwind(s, a[0].c, a[1].c, true); EB
  B("__cxa_begin_catch")
    u64 o = ptrOf(s, a[0]);
    bool f = false;
    for (auto &c : s.caught) if (c.obj == o) { c.handlers++; f = true; Caught t = c; t.rethrown = false; c = t; }
    if (!f) s.caught.push_back({o, s.excTi, 1, false});
    else { for (size_t i = 0; i < s.caught.size(); ++i) if (s.caught[i].obj == o) { Caught t = s.caught[i]; s.caught.erase(s.caught.begin() + i); s.caught.push_back(t); break; } }
    ret(s, C(o)); EB
  B("__cxa_get_exception_ptr") ret(s, a[0]); EB
  B("__cxa_end_catch")
    if (!s.caught.empty()) {
      Caught &c = s.caught.back();
      if (--c.handlers == 0) {
        u64 o = c.obj; bool re = c.rethrown;
        if (!re) { s.mem.del((o - OBASE) / OSTEP); }
        s.caught.pop_back();
      }
    }
    ret(s); EB
  B("__cxa_rethrow")
    if (s.caught.empty()) fatal(s, "exception", "rethrow without exception");
    s.caught.back().rethrown = true;
    unwind(s, s.caught.back().obj, s.caught.back().ti, true); EB
  B("_ZSt9terminatev") fatal(s, "exception", "std::terminate"); EB
  B("__cxa_call_unexpected") fatal(s, "exception", "std::unexpected"); EB
  B("abort") fatal(s, "abort", "abort"); EB
  B("__cxa_pure_virtual") fatal(s, "abort", "pure virtual call"); EB
  B("__assert_fail") std::string e = cstr(s, a[0].c); fatal(s, "assertion", "assert(" + e + ")"); EB
  B("_ZSt21__glibcxx_assert_failPKciS0_S0_") fatal(s, "assertion", "libstdc++ assertion"); EB
  B("_ZSt20__throw_length_errorPKc") throwStd(s, "_ZTISt12length_error"); EB
  B("_ZSt19__throw_logic_errorPKc") throwStd(s, "_ZTISt11logic_error"); EB
  B("_ZSt20__throw_out_of_rangePKc") throwStd(s, "_ZTISt12out_of_range"); EB
  B("_ZSt24__throw_out_of_range_fmtPKcz") throwStd(s, "_ZTISt12out_of_range"); EB
  B("_ZSt24__throw_invalid_argumentPKc") throwStd(s, "_ZTISt16invalid_argument"); EB
  B("_ZSt21__throw_runtime_errorPKc") throwStd(s, "_ZTISt13runtime_error"); EB
  B("_ZSt17__throw_bad_allocv") throwStd(s, "_ZTISt9bad_alloc"); EB
  B("_ZSt28__throw_bad_array_new_lengthv") throwStd(s, "_ZTISt20bad_array_new_length"); EB
  B("_ZSt25__throw_bad_function_callv") throwStd(s, "_ZTISt17bad_function_call"); EB
  B("_ZSt16__throw_bad_castv") throwStd(s, "_ZTISt8bad_cast"); EB
  B("_ZSt20__throw_system_errori") throwStd(s, "_ZTISt12system_error"); EB
  // std exception objects: message text is not modelled
  B("@excctor") u64 p = ptrOf(s, a[0]); std::string n = x.callee->name;
    // _ZNSt13runtime_errorC2E... -> vtable of that class
    size_t k = n.find("C1"); if (k == std::string::npos) k = n.find("C2");
    std::string cls = n.substr(4, k - 4);  // after _ZNS
    std::string vt = "_ZTVS" + cls;
    auto it = extObj.find(vt);
    if (it != extObj.end()) storeBits(s, p, C(it->second + 16), 64);
    ret(s); EB
  B("@nop") ret(s, C(0)); EB
  B("@arg0") ret(s, a.empty() ? C(0) : a[0]); EB
  B("@emptystr") retStr(s, ptrOf(s, a[0])); ret(s); EB
  B("@cstr") ret(s, C(emptyStr)); EB
  B("@ssctor") u64 p = ptrOf(s, a[0]);
    u64 vt = extObj["@ssvtable"] + 256;
    u64 off = 0; Obj *o = find(s, p, off);
    if (o) { u64 room = std::min<u64>(o->size - off, 376); for (u64 i = 0; i + 8 <= room; i += 8) storeBits(s, p + i, C(i % 16 == 0 ? vt : 0), 64); }
    s.text[p] = ""; s.textFmt.erase(p);
    ret(s); EB
  B("@ssdtor") if (!a[0].e) { s.text.erase(a[0].c); s.textFmt.erase(a[0].c); } ret(s, C(0)); EB
  B("@ssget") std::string *t = textOf(s, ptrOf(s, a[1])); retText(s, ptrOf(s, a[0]), t ? *t : ""); ret(s); EB
  B("@ssset") std::string *t = textOf(s, ptrOf(s, a[0])); u64 p = ptrOf(s, a[1]); if (t) *t = textBytes(s, loadBits(s, p, 64), loadBits(s, p + 8, 64)); ret(s); EB
  B("@tellp") std::string *t = textOf(s, ptrOf(s, a[0])); Val r; r.e = P.intern(AGG, 1, mkConst(64, t ? t->size() : 0), mkConst(64, 0), nullptr, 2, 0); ret(s, r); EB
  B("@oscstr") if (std::string *t = textOf(s, ptrOf(s, a[0]))) { if (a[1].e) *t += "?"; else for (u64 i = 0; i < 4096; ++i) { Val v = loadBits(s, a[1].c + i, 8); if (!v.e && !v.c) break; *t += v.e ? '?' : (char)v.c; } } ret(s, a[0]); EB
  B("@osstr") if (std::string *t = textOf(s, ptrOf(s, a[0]))) { u64 p = ptrOf(s, a[1]); *t += textBytes(s, loadBits(s, p, 64), loadBits(s, p + 8, 64)); } ret(s, a[0]); EB
  B("@osbuf") if (std::string *t = textOf(s, ptrOf(s, a[0]))) *t += textBytes(s, a[1], a[2]); ret(s, a[0]); EB
  B("@oschar") if (std::string *t = textOf(s, ptrOf(s, a[0]))) *t += a[1].e ? '?' : (char)a[1].c; ret(s, a[0]); EB
  B("@osany") if (std::string *t = textOf(s, ptrOf(s, a[0]))) *t += "?"; ret(s, a[0]); EB
  B("@osfmt") if (!a[0].e) s.textFmt[a[0].c] = true; ret(s, a[0]); EB
  B("@osendl") if (std::string *t = textOf(s, ptrOf(s, a[0]))) *t += "\n"; ret(s, a[0]); EB
  B("@osint") if (std::string *t = textOf(s, ptrOf(s, a[0]))) {   // decimal; after a manipulator the text is not modelled
      const std::string &n = x.callee->name; char k = n.back() == '_' ? n[n.find("_M_insertI") + 10] : n.back();
      u64 c = a[1].c;
      auto m = s.textFmt.upper_bound(a[0].c);
      if (a[1].e || (m != s.textFmt.begin() && a[0].c - std::prev(m)->first < 376)) *t += "?";
      else if (k == 'i' || k == 's') *t += std::to_string(k == 'i' ? (int64_t)(int32_t)c : (int64_t)(int16_t)c);
      else if (k == 'l' || k == 'x') *t += std::to_string((int64_t)c);
      else if (k == 'b') *t += c & 1 ? "1" : "0";
      else *t += std::to_string(k == 'j' ? c & 0xffffffff : k == 't' ? c & 0xffff : c);
    } ret(s, a[0]); EB
  B("__errno_location") ret(s, C(extObj["errno"])); EB
  B("__cxa_guard_acquire") u64 p = ptrOf(s, a[0]); Val v = loadBits(s, p, 8); if (v.e) unsup(s, "symbolic guard"); ret(s, C(v.c ? 0 : 1)); EB
  B("__cxa_guard_release") u64 p = ptrOf(s, a[0]); storeBits(s, p, C(1), 8); ret(s); EB
  B("pow") E r = mkUF("pow", toE(a[0], 64), toE(a[1], 64), 64); ret(s, V(r)); EB
  for (const char *fn : {"floor", "ceil", "trunc", "round", "nearbyint", "rint", "sqrt", "log10", "log", "log2", "exp", "exp2"}) {
    std::string name = fn;
    addB(fn, [name](State &s, const std::vector<Val> &a, const Ins &) { ret(s, V(mkUF(name, toE(a[0], 64), mkConst(64, 0), 64))); });
    addB((new std::string(name + "f"))->c_str(), [name](State &s, const std::vector<Val> &a, const Ins &) {
      ret(s, V(mkFp(FTRUNC, mkUF(name, mkFp(FEXT, toE(a[0], 32), nullptr, 64), mkConst(64, 0), 64), nullptr, 32))); });
  }
  for (const char *fn : {"fmod", "fmax", "fmin"}) {
    std::string name = fn;
    addB(fn, [name](State &s, const std::vector<Val> &a, const Ins &) { ret(s, V(mkUF(name, toE(a[0], 64), toE(a[1], 64), 64))); });
  }
  for (const char *fn : {"lround", "llround", "lrint", "llrint"}) {
    std::string name = fn[0] == 'l' && fn[1] == 'l' ? fn + 2 : fn + 1; if (name == "int") name = "rint";
    addB(fn, [name](State &s, const std::vector<Val> &a, const Ins &) { ret(s, V(mkFp(F2SI, mkUF(name, toE(a[0], 64), mkConst(64, 0), 64), nullptr, 64))); });
  }
  // text output and texts of error numbers are not modelled
  for (const char *fn : {"printf", "puts", "fprintf", "fputs", "putchar", "fputc", "fflush", "fwrite", "perror", "vprintf", "vfprintf", "syslog"})
    addB(fn, [](State &s, const std::vector<Val> &, const Ins &) { ret(s, C(0)); });
  B("snprintf") u64 p = ptrOf(s, a[0]); if (!a[1].e && a[1].c) storeBits(s, p, C(0), 8); ret(s, C(0)); EB
  biName["vsnprintf"] = biName["snprintf"];
  B("sprintf") u64 p = ptrOf(s, a[0]); storeBits(s, p, C(0), 8); ret(s, C(0)); EB
  biName["vsprintf"] = biName["sprintf"];
  B("strerror") ret(s, C(emptyStr)); EB
  B("pthread_self") ret(s, C(1)); EB
  B("realloc")
    u64 p = ptrOf(s, a[0]); u64 n = allocHeap(s, a[1], false);
    if (p && n) {
      u64 off = 0; Obj *o = find(s, p, off); if (!o || off) fatal(s, "memory", "realloc of an invalid pointer");
      u64 off2 = 0; Obj *q = find(s, n, off2);
      if (o->symSize || q->symSize) unsup(s, "realloc of symbolic size");
      copyMem(s, n, p, std::min<u64>(o->size, q->size));
      freeHeap(s, p);
    }
    ret(s, C(n)); EB
  B("__dynamic_cast")
    u64 p = ptrOf(s, a[0]);
    Val vp = loadBits(s, p, 64); if (vp.e) unsup(s, "dynamic_cast of an object without a type");
    Val top = loadBits(s, vp.c - 16, 64), ti = loadBits(s, vp.c - 8, 64);
    int d = derives(s, ti.c, a[2].c);
    ret(s, C(d < 0 ? 0 : p + top.c + d)); EB
  B("htons") Val v = a[0]; E e = toE(v, 16); ret(s, V(mkConcat(mkExtract(e, 0, 8), mkExtract(e, 8, 8)))); EB
  biName["ntohs"] = biName["htons"];
  B("htonl") E e = toE(a[0], 32); ret(s, V(mkConcat(mkExtract(e, 0, 8), mkConcat(mkExtract(e, 8, 8), mkConcat(mkExtract(e, 16, 8), mkExtract(e, 24, 8)))))); EB
  biName["ntohl"] = biName["htonl"];
  B("abs") E e = toE(a[0], 32); ret(s, V(mkIte(mkBin(SLT, e, mkConst(32, 0)), mkBin(SUB, mkConst(32, 0), e), e))); EB
  B("exit") fatal(s, "abort", "exit called"); EB
  // ---- harness interface
  B("sym_bytes") u64 p = ptrOf(s, a[0]); symBytes(s, cstr(s, a[2].c), (unsigned)a[1].c, p); ret(s); EB
  B("sym_u8") ret(s, V(symBytes(s, cstr(s, a[0].c), 1, 0))); EB
  B("sym_u16") ret(s, V(symBytes(s, cstr(s, a[0].c), 2, 0))); EB
  B("sym_u32") ret(s, V(symBytes(s, cstr(s, a[0].c), 4, 0))); EB
  B("sym_u64") ret(s, V(symBytes(s, cstr(s, a[0].c), 8, 0))); EB
  B("sym_restricted") ret(s, C(restricted)); EB
  B("sym_arg") if (a[0].c >= args.size()) { fprintf(stderr, "missing job argument\n"); exit(2); } ret(s, C(args[a[0].c])); EB
  B("sym_assume")
    E c = sub(s, truthE(s, a[0], 8));
    if (isFalse(c)) throw PathEnd{"assume"};
    if (!isTrue(c)) { Model m; int r = feasible(s, c, &m); if (r == -1) incon(s, "solver gave no answer for an assumption"); if (r != 1) throw PathEnd{"assume"}; s.model = m; addCons(s, c); }
    ret(s); EB
  B("sym_check")
    nChecks++;
    E c = truthE(s, a[0], 8);
    std::string l = cstr(s, a[1].c);
    if (!isC(c)) nChecksSolved++;
    require(s, c, "assert", l);
    ret(s); EB
  B("sym_eq_bytes")
    u64 p = ptrOf(s, a[0]), q = ptrOf(s, a[1]); u64 n = concretize(s, a[2], 64, "compare length");
    std::string l = cstr(s, a[3].c);
    nChecks++;
    E c = mkBool(true);
    for (u64 i = 0; i < n; ++i) c = mkBin(AND, c, mkBin(EQ, loadByteE(s, p + i), loadByteE(s, q + i)));
    if (!isC(c)) nChecksSolved++;
    require(s, c, "assert", l);
    ret(s); EB
  B("sym_check_real")   // got, want, slack (constant), label: equal as real numbers
    nChecks++;
    E g = sub(s, toE(a[0], 64)), w = sub(s, toE(a[1], 64));
    if (a[2].e) unsup(s, "symbolic slack");
    double sl; memcpy(&sl, &a[2].c, 8);
    std::string l = cstr(s, a[3].c);
    if (!(isC(g) && isC(w))) nChecksSolved++;
    RealResult r = realClose(S, g, w, sl, (unsigned)std::max(100.0, std::min((double)S.timeoutMs, (deadline - nowS()) * 1000)), s.cons);
    if (r.res == 1) {
      E q = mkBool(true);
      for (auto &lv : r.leaves) q = mkBin(AND, q, mkBin(EQ, lv.first, mkConst(lv.first->w, lv.second)));
      q = sub(s, q);
      Model m; int f = isFalse(q) ? 0 : isTrue(q) ? (m = s.model, 1) : feasible(s, q, &m);
      if (f == 1) { violation(s, "assert", l, m); throw PathEnd{"violation"}; }
      { incon(s, "counterexample over the reals lies outside the path (" + l + ")"); throw PathEnd{"unsupported"}; }
    } else if (r.res < 0) { incon(s, "no answer over the reals (" + l + ") " + r.why); throw PathEnd{"unsupported"}; }
    ret(s); EB
  // value-only versions that never fork
  B("sym_ite64") E c = truthE(s, a[0], 8); ret(s, V(mkIte(c, toE(a[1], 64), toE(a[2], 64)))); EB
  B("sym_and") ret(s, V(mkZExt(mkBin(AND, truthE(s, a[0], 8), truthE(s, a[1], 8)), 32))); EB
  B("sym_or") ret(s, V(mkZExt(mkBin(OR, truthE(s, a[0], 8), truthE(s, a[1], 8)), 32))); EB
  B("sym_not") ret(s, V(mkZExt(mkNot(truthE(s, a[0], 8)), 32))); EB
  B("sym_fork") E c = truthE(s, a[0], 8); bool b = branch(s, c); ret(s, C(b)); EB
  B("sym_reach") std::string l = cstr(s, a[0].c); reachN[l]++; s.trail.push_back(l); ret(s); EB
  B("sym_observe") ObsE o; o.label = cstr(s, a[0].c); o.v = a[1]; o.w = 64; s.obs.push_back(o); ret(s); EB
  B("sym_concretize") u64 v = concretize(s, a[0], 64, "value"); ret(s, C(v)); EB
  B("sym_is_symbolic_run") ret(s, C(1)); EB
  B("sym_kill") throw PathEnd{"assume"}; EB
  B("sym_fail") std::string l = cstr(s, a[0].c); nChecks++; fatal(s, "assert", l); EB
  // how many of n bytes are still uninitialised / readable
  B("sym_readable") u64 p = ptrOf(s, a[0]); u64 off = 0; Obj *o = find(s, p, off); ret(s, C(o && !o->symSize && off + a[1].c <= o->size)); EB
#undef B
#undef EB
}
static bool starts(const std::string &n, const char *p) { return n.rfind(p, 0) == 0; }
static bool has(const std::string &n, const char *p) { return n.find(p) != std::string::npos; }
static int resolveBuiltin(Fn *f) {
  const std::string &n = f->name;
  auto it = biName.find(n);
  if (it != biName.end()) return it->second;
  if (n == "__ext_virtual") return biName["@cstr"];
  if (starts(n, "llvm.")) return -1;
  // std exception classes
  if (starts(n, "_ZNSt") && (has(n, "_errorC1") || has(n, "_errorC2") || has(n, "_rangeC1") || has(n, "_rangeC2") || has(n, "_argumentC1") || has(n, "_argumentC2")) && !has(n, "8ios_base")) return biName["@excctor"];
  if (starts(n, "_ZNSt") && (has(n, "_errorD") || has(n, "_rangeD") || has(n, "_argumentD") || has(n, "9exceptionD") || has(n, "9bad_allocD"))) return biName["@nop"];
  if (has(n, "4whatEv") && starts(n, "_ZNKSt")) return biName["@cstr"];
  // streams: output text is not modelled
  if (starts(n, "_ZNSt7__cxx11") && has(n, "stringstream") && (has(n, "EEC1") || has(n, "EEC2"))) return biName["@ssctor"];
  if (starts(n, "_ZNSt7__cxx11") && has(n, "stringstream") && (has(n, "EED1") || has(n, "EED2"))) return biName["@ssdtor"];
  if (starts(n, "_ZNKRSt7__cxx11") || starts(n, "_ZNKSt7__cxx11") || starts(n, "_ZNOSt7__cxx11")) if (has(n, "stringstream") && has(n, "3str")) return biName["@ssget"];
  if (starts(n, "_ZNSt7__cxx11") && has(n, "stringstream") && (has(n, "3strERK") || has(n, "3strEO"))) return biName["@ssset"];
  if (n == "_ZNSo5tellpEv") return biName["@tellp"];
  if (starts(n, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_")) return biName[has(n, "ES5_PK") ? "@oscstr" : has(n, "ES5_c") || has(n, "ES5_h") || has(n, "ES5_a") ? "@oschar" : "@osany"];
  if (starts(n, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_string")) return biName["@osstr"];
  if (starts(n, "_ZSt16__ostream_insertI")) return biName["@osbuf"];
  if (starts(n, "_ZNSolsE") && n.size() == 9) return biName[strchr("ilmjxystb", n[8]) ? "@osint" : "@osany"];
  if (starts(n, "_ZNSo9_M_insertI")) return biName[strchr("lmxyb", n[16]) ? "@osint" : "@osany"];
  if (n == "_ZNSolsEPFRSt8ios_baseS0_E" || (starts(n, "_ZStlsI") && has(n, "St") && (has(n, "ES6_St5_Setw") || has(n, "ES6_St8_Setfill") || has(n, "ES6_St8_Setbase")))) return biName["@osfmt"];
  if (n == "_ZNSo3putEc") return biName["@oschar"];
  if (starts(n, "_ZSt4endlI")) return biName["@osendl"];
  if (starts(n, "_ZStlsI") || starts(n, "_ZNSolsE") || starts(n, "_ZNSo") || starts(n, "_ZSt4endlI") || starts(n, "_ZSt5flushI") || starts(n, "_ZSt16__ostream_insertI") || starts(n, "_ZNSi") || starts(n, "_ZNSd")) return biName["@arg0"];
  if (starts(n, "_ZNSt8ios_base4Init") || starts(n, "_ZSt21ios_base_library_init") || starts(n, "__cxa_atexit") || starts(n, "__cxa_thread_atexit") || starts(n, "__cxa_guard_abort") || starts(n, "pthread_mutex") || starts(n, "_ZNSt6locale")) return biName["@nop"];
  if (starts(n, "_ZNSt8ios_base") || starts(n, "_ZNSt9basic_ios")) return biName["@arg0"];
  return -1;
}

// ---------------------------------------------------------------- intrinsics
static void intrinsic(State &s, const Ins &x, std::vector<Val> &a) {
  auto &cb = cast<CallBase>(*x.I);
  auto id = cast<Function>(cb.getCalledOperand()->stripPointerCastsAndAliases())->getIntrinsicID();
  unsigned w = x.w;
  auto E0 = [&](int i) { return toE(a[i], tyW(cb.getArgOperand(i)->getType())); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: bi[biName["memcpy"]](s, a, x); return;
    case Intrinsic::memset: bi[biName["memset"]](s, a, x); return;
    case Intrinsic::eh_typeid_for: ret(s, C(selOf(a[0].c) & 0xffffffff)); return;
    case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret(s, a[0]); return;
    case Intrinsic::is_constant: ret(s, C(0)); return;
    case Intrinsic::objectsize: ret(s, C(cast<ConstantInt>(cb.getArgOperand(1))->isZero() ? ~0ULL & m64(w) : 0)); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: fatal(s, "abort", "trap"); 
    case Intrinsic::stacksave: ret(s, C(0)); return;
    case Intrinsic::stackrestore: ret(s); return;
    case Intrinsic::umax: ret(s, V(mkIte(mkBin(ULT, E0(0), E0(1)), E0(1), E0(0)))); return;
    case Intrinsic::umin: ret(s, V(mkIte(mkBin(ULT, E0(0), E0(1)), E0(0), E0(1)))); return;
    case Intrinsic::smax: ret(s, V(mkIte(mkBin(SLT, E0(0), E0(1)), E0(1), E0(0)))); return;
    case Intrinsic::smin: ret(s, V(mkIte(mkBin(SLT, E0(0), E0(1)), E0(0), E0(1)))); return;
    case Intrinsic::abs: { E e = E0(0); ret(s, V(mkIte(mkBin(SLT, e, mkConst(w, 0)), mkBin(SUB, mkConst(w, 0), e), e))); return; }
    case Intrinsic::bswap: { E e = E0(0), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } ret(s, V(r)); return; }
    case Intrinsic::fshl: { E h = E0(0), l = E0(1); if (a[2].e) unsup(s, "fshl"); unsigned k = a[2].c % w; ret(s, V(k ? mkConcat(mkExtract(h, 0, w - k), mkExtract(l, w - k, k)) : h)); return; }
    case Intrinsic::fshr: { E h = E0(0), l = E0(1); if (a[2].e) unsup(s, "fshr"); unsigned k = a[2].c % w; ret(s, V(k ? mkConcat(mkExtract(h, 0, k), mkExtract(l, k, w - k)) : l)); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      E p = E0(0), q = E0(1); unsigned n = p->w;
      if (n > 64) unsup(s, "wide overflow arithmetic");
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op o = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? SUB : MUL;
      unsigned ww = o == MUL ? 2 * n : n + 1;
      E P1 = sg ? mkSExt(p, ww) : mkZExt(p, ww), Q1 = sg ? mkSExt(q, ww) : mkZExt(q, ww);
      E r = mkBin(o, P1, Q1), t = mkExtract(r, 0, n);
      E ov = mkNot(mkBin(EQ, r, sg ? mkSExt(t, ww) : mkZExt(t, ww)));
      Val v; v.e = P.intern(AGG, 1, t, ov, 0, 2, 0); ret(s, v); return;
    }
    case Intrinsic::fabs: { E e = E0(0); ret(s, V(mkConcat(mkConst(1, 0), mkExtract(e, 0, w - 1)))); return; }
    case Intrinsic::fmuladd: { ret(s, V(mkFp(FADD, mkFp(FMUL, E0(0), E0(1), w), E0(2), w))); return; }
    case Intrinsic::pow: ret(s, V(mkUF("pow", E0(0), E0(1), 64))); return;
    case Intrinsic::ctlz: { E e = E0(0), r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkBin(EQ, mkExtract(e, i, 1), mkConst(1, 1)), mkConst(w, w - 1 - i), r); ret(s, V(r)); return; }
    case Intrinsic::cttz: { E e = E0(0), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkBin(EQ, mkExtract(e, i, 1), mkConst(1, 1)), mkConst(w, i), r); ret(s, V(r)); return; }
    case Intrinsic::usub_sat: ret(s, V(mkIte(mkBin(ULT, E0(0), E0(1)), mkConst(w, 0), mkBin(SUB, E0(0), E0(1))))); return;
    case Intrinsic::uadd_sat: { E r = mkBin(ADD, E0(0), E0(1)); ret(s, V(mkIte(mkBin(ULT, r, E0(0)), mkConst(w, ~0ULL), r))); return; }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::nearbyint: case Intrinsic::rint: case Intrinsic::sqrt: {
      const char *fn = id == Intrinsic::floor ? "floor" : id == Intrinsic::ceil ? "ceil" : id == Intrinsic::trunc ? "trunc" : id == Intrinsic::round ? "round" : id == Intrinsic::sqrt ? "sqrt" : id == Intrinsic::rint ? "rint" : "nearbyint";
      bi[biName[std::string(fn) + (w == 32 ? "f" : "")]](s, a, x); return;
    }
    case Intrinsic::maxnum: bi[biName["fmax"]](s, a, x); return;
    case Intrinsic::minnum: bi[biName["fmin"]](s, a, x); return;
    case Intrinsic::copysign: { ret(s, V(mkConcat(mkExtract(E0(1), w - 1, 1), mkExtract(E0(0), 0, w - 1)))); return; }
    case Intrinsic::is_fpclass: {
      unsigned n = tyW(cb.getArgOperand(0)->getType()), mb = n == 32 ? 23 : n == 64 ? 52 : 0; if (!mb) unsup(s, "is_fpclass");
      E e = E0(0), man = mkExtract(e, 0, mb), ex = mkExtract(e, mb, n - 1 - mb), sg = mkBin(EQ, mkExtract(e, n - 1, 1), mkConst(1, 1));
      E m0 = mkBin(EQ, man, mkConst(mb, 0)), e0 = mkBin(EQ, ex, mkConst(n - 1 - mb, 0)), e1 = mkBin(EQ, ex, mkConst(n - 1 - mb, ~0ULL & m64(n - 1 - mb)));
      E q = mkBin(EQ, mkExtract(man, mb - 1, 1), mkConst(1, 1));
      auto And = [](E p, E r) { return mkBin(AND, p, r); };
      E nan = And(e1, mkNot(m0)), inf = And(e1, m0), zero = And(e0, m0), subn = And(e0, mkNot(m0)), norm = And(mkNot(e0), mkNot(e1));
      E cls[10] = {And(nan, mkNot(q)), And(nan, q), And(inf, sg), And(norm, sg), And(subn, sg), And(zero, sg), And(zero, mkNot(sg)), And(subn, mkNot(sg)), And(norm, mkNot(sg)), And(inf, mkNot(sg))};
      E r = mkBool(false); for (int i = 0; i < 10; ++i) if (a[1].c >> i & 1) r = mkBin(OR, r, cls[i]);
      ret(s, V(r)); return;
    }
    case Intrinsic::ctpop: { E e = E0(0), r = mkConst(w, 0); for (unsigned i = 0; i < w; ++i) r = mkBin(ADD, r, mkZExt(mkExtract(e, i, 1), w)); ret(s, V(r)); return; }
    default: unsup(s, "intrinsic " + x.callee->name);
  }
}

// ---------------------------------------------------------------- interpreter
static std::map<std::string, Fn *> envFn;
static Fn *redirect(Fn *f) {
  // env_<name> in the module models the operating-system call <name>
  static std::map<Fn *, Fn *> memo;
  auto it = memo.find(f);
  if (it != memo.end()) return it->second;
  Fn *r = f;
  if (f->F && f->F->isDeclaration()) {
    std::string n = f->name;
    static const std::map<std::string, std::string> alias = {
      {"_ZNSt6chrono3_V212steady_clock3nowEv", "env_steady_now"}, {"_ZNSt6chrono3_V212system_clock3nowEv", "env_system_now"},
      {"_ZNSt13random_device9_M_getvalEv", "env_rd_getval"}, {"_ZNSt13random_device7_M_finiEv", "env_rd_fini"},
      {"_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "env_rd_init"}};
    auto ia = alias.find(n);
    if (Function *g = M->getFunction(ia != alias.end() ? ia->second : "env_" + n)) if (!g->isDeclaration()) r = getFn(g);
  }
  return memo[f] = r;
}
static void doCall(State &s, const Ins &x) {
  Frame &f = s.fr.back();
  std::vector<Val> a;
  size_t na = x.o.size();
  Fn *cal = x.callee;
  if (!cal) {
    Val t = get(f, x.o[na - 1]); na--;
    u64 ad = ptrOf(s, t);
    if (ad < FBASE || (ad - FBASE) % 16 || (ad - FBASE) / 16 >= fns.size()) fatal(s, "memory", "call through an invalid function pointer");
    cal = fns[(ad - FBASE) / 16];
  }
  a.reserve(na);
  for (size_t i = 0; i < na; ++i) a.push_back(get(s.fr.back(), x.o[i]));
  cal = redirect(cal);
  if (cal->F && !cal->F->isDeclaration()) {
    if (cal->builtin == -2) {
      cal->builtin = -1;
      if (starts(cal->name, "_ZNSt7__cxx119to_string")) cal->builtin = biName["@emptystr"];
      if (cal->name == "_ZNSt7__cxx119to_stringEd" || cal->name == "_ZNSt7__cxx119to_stringEf") { bi[cal->builtin](s, a, x); cal->builtin = -2; return; }
    }
    if (cal->builtin >= 0) {
      // decimal text of a symbolic number is not modelled (error messages only)
      if (a.size() > 1 && a[1].e) { bi[cal->builtin](s, a, x); return; }
    }
    enter(s, cal, a);
    return;
  }
  if (cal->builtin == -2) cal->builtin = resolveBuiltin(cal);
  if (cal->builtin >= 0) {
    if (!x.callee) { Ins y = x; y.callee = cal; bi[cal->builtin](s, a, y); }
    else bi[cal->builtin](s, a, x);
    return;
  }
  if (cal->F && cal->F->isIntrinsic()) { intrinsic(s, x, a); return; }
  unsup(s, "call of external function " + cal->name);
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  int64_t sa = (int64_t)(a << (64 - w)) >> (64 - w), sb = (int64_t)(b << (64 - w)) >> (64 - w);
  switch (p) {
    case ICmpInst::ICMP_EQ: return a == b; case ICmpInst::ICMP_NE: return a != b;
    case ICmpInst::ICMP_UGT: return a > b; case ICmpInst::ICMP_UGE: return a >= b;
    case ICmpInst::ICMP_ULT: return a < b; case ICmpInst::ICMP_ULE: return a <= b;
    case ICmpInst::ICMP_SGT: return sa > sb; case ICmpInst::ICMP_SGE: return sa >= sb;
    case ICmpInst::ICMP_SLT: return sa < sb; default: return sa <= sb;
  }
}
static E icmpE(unsigned p, E a, E b) {
  switch (p) {
    case ICmpInst::ICMP_EQ: return mkBin(EQ, a, b); case ICmpInst::ICMP_NE: return mkNot(mkBin(EQ, a, b));
    case ICmpInst::ICMP_UGT: return mkBin(ULT, b, a); case ICmpInst::ICMP_UGE: return mkBin(ULE, b, a);
    case ICmpInst::ICMP_ULT: return mkBin(ULT, a, b); case ICmpInst::ICMP_ULE: return mkBin(ULE, a, b);
    case ICmpInst::ICMP_SGT: return mkBin(SLT, b, a); case ICmpInst::ICMP_SGE: return mkBin(SLE, b, a);
    case ICmpInst::ICMP_SLT: return mkBin(SLT, a, b); default: return mkBin(SLE, a, b);
  }
}
static void step(State &s) {
  Frame &f = s.fr.back();
  const Ins &x = f.fn->bbs[f.bb].ins[f.ip];
  nInstr++;
  if (++s.steps > maxSteps) fatal(s, "hang", "no end within the step bound");
  auto set = [&](const Val &v) { Frame &g = s.fr.back(); g.r[x.dst] = v; g.ip++; };
  switch (x.x) {
    case X_NOP: f.ip++; return;
    case X_BIN: {
      Val a = get(f, x.o[0]), b = get(f, x.o[1]);
      unsigned w = x.w;
      bool dv = x.sub == UDIV || x.sub == SDIV || x.sub == UREM || x.sub == SREM;
      if (!a.e && !b.e && w <= 64) {
        u64 p = a.c, q = b.c, m = m64(w), r;
        switch (x.sub) {
          case ADD: r = (p + q) & m; break; case SUB: r = (p - q) & m; break; case MUL: r = (p * q) & m; break;
          case AND: r = p & q; break; case OR: r = p | q; break; case XOR: r = p ^ q; break;
          default:
            if (dv && q == 0) fatal(s, "arithmetic", "division by zero");
            r = (u64)foldBin((Op)x.sub, w, p, q);
        }
        f.r[x.dst].e = nullptr; f.r[x.dst].c = r; f.ip++;
        return;
      }
      E ea = toE(a, w), eb = toE(b, w);
      if (dv) require(s, mkNot(mkBin(EQ, mkConst(w, 0), eb)), "arithmetic", "division by zero");
      if (x.sub == SHL || x.sub == LSHR || x.sub == ASHR || dv) { ea = sub(s, ea); eb = sub(s, eb); }
      set(V(mkBin((Op)x.sub, ea, eb)));
      return;
    }
    case X_ICMP: {
      Val a = get(f, x.o[0]), b = get(f, x.o[1]);
      if (!a.e && !b.e && x.w2 <= 64) { f.r[x.dst].e = nullptr; f.r[x.dst].c = icmpC(x.sub, a.c, b.c, x.w2); f.ip++; return; }
      set(V(icmpE(x.sub, toE(a, x.w2), toE(b, x.w2))));
      return;
    }
    case X_FBIN: { Val a = get(f, x.o[0]), b = get(f, x.o[1]); set(V(mkFp((Op)x.sub, sub(s, toE(a, x.w)), sub(s, toE(b, x.w)), x.w))); return; }
    case X_FNEG: { Val a = get(f, x.o[0]); E e = toE(a, x.w); set(V(mkBin(XOR, mkConst(x.w, (u128)1 << (x.w - 1)), e))); return; }
    case X_FCMP: {
      E a = sub(s, toE(get(f, x.o[0]), x.w2)), b = sub(s, toE(get(f, x.o[1]), x.w2));
      E un = mkFp(FUNO, a, b, 1);
      E r;
      switch (x.sub) {
        case FCmpInst::FCMP_FALSE: r = mkBool(false); break; case FCmpInst::FCMP_TRUE: r = mkBool(true); break;
        case FCmpInst::FCMP_OEQ: r = mkFp(FOEQ, a, b, 1); break; case FCmpInst::FCMP_UEQ: r = mkBin(OR, un, mkFp(FOEQ, a, b, 1)); break;
        case FCmpInst::FCMP_ONE: r = mkBin(AND, mkNot(un), mkNot(mkFp(FOEQ, a, b, 1))); break; case FCmpInst::FCMP_UNE: r = mkNot(mkFp(FOEQ, a, b, 1)); break;
        case FCmpInst::FCMP_OLT: r = mkFp(FOLT, a, b, 1); break; case FCmpInst::FCMP_OLE: r = mkFp(FOLE, a, b, 1); break;
        case FCmpInst::FCMP_OGT: r = mkFp(FOLT, b, a, 1); break; case FCmpInst::FCMP_OGE: r = mkFp(FOLE, b, a, 1); break;
        case FCmpInst::FCMP_ULT: r = mkNot(mkFp(FOLE, b, a, 1)); break; case FCmpInst::FCMP_ULE: r = mkNot(mkFp(FOLT, b, a, 1)); break;
        case FCmpInst::FCMP_UGT: r = mkNot(mkFp(FOLE, a, b, 1)); break; case FCmpInst::FCMP_UGE: r = mkNot(mkFp(FOLT, a, b, 1)); break;
        case FCmpInst::FCMP_UNO: r = un; break; default: r = mkNot(un);
      }
      set(V(r)); return;
    }
    case X_TRUNC: { Val a = get(f, x.o[0]); set(a.e ? V(mkExtract(a.e, 0, x.w)) : C(a.c & m64(x.w))); return; }
    case X_ZEXT: { Val a = get(f, x.o[0]); set(a.e ? V(mkZExt(a.e, x.w)) : x.w <= 64 ? a : V(mkConst(x.w, a.c))); return; }
    case X_SEXT: { Val a = get(f, x.o[0]); set(a.e || x.w > 64 ? V(mkSExt(toE(a, x.w2), x.w)) : C((u64)((int64_t)(a.c << (64 - x.w2)) >> (64 - x.w2)) & m64(x.w))); return; }
    case X_FCAST: { Val a = get(f, x.o[0]); set(V(mkFp((Op)x.sub, sub(s, toE(a, x.w2)), nullptr, x.w))); return; }
    case X_COPY: set(get(f, x.o[0])); return;
    case X_LOAD: { u64 p = ptrOf(s, get(f, x.o[0])); Val v = x.w ? loadBits(s, p, x.w) : loadTy(s, p, x.I->getType()); set(v); s.concCount = 0; return; }
    case X_STORE: {
      u64 p = ptrOf(s, get(f, x.o[1]));
      Val v = get(s.fr.back(), x.o[0]);
      if (x.w) storeBits(s, p, v, x.w); else storeTy(s, p, v, x.I->getOperand(0)->getType());
      s.fr.back().ip++; s.concCount = 0; return;
    }
    case X_GEP: {
      Val b = get(f, x.o[0]);
      bool conc = !b.e;
      u64 c = b.c + x.imm;
      for (size_t i = 0; i < x.gep.size() && conc; ++i) {
        Val &v = f.r[x.gep[i].first];
        if (v.e) { conc = false; break; }
        unsigned w = x.gw[i];
        c += (u64)((int64_t)(v.c << (64 - w)) >> (64 - w)) * x.gep[i].second;
      }
      if (conc) { f.r[x.dst].e = nullptr; f.r[x.dst].c = c; f.ip++; return; }
      E e = mkBin(ADD, mkConst(64, x.imm), toE(b, 64));
      for (size_t i = 0; i < x.gep.size(); ++i) {
        E ix = mkSExt(toE(f.r[x.gep[i].first], x.gw[i]), 64);
        e = mkBin(ADD, e, mkBin(MUL, mkConst(64, x.gep[i].second), ix));
      }
      set(V(e)); return;
    }
    case X_ALLOCA: {
      u64 n = concretize(s, get(f, x.o[0]), 64, "stack size");
      u64 a = newObj(s, n * x.imm, 2, true);
      s.fr.back().allocas.push_back(a);
      set(C(a)); return;
    }
    case X_BR: jump(s, x.t); return;
    case X_CBR: {
      Val c = get(f, x.o[0]);
      bool b = c.e ? branch(s, c.e) : (c.c & 1);
      jump(s, b ? x.t : x.f);
      s.concCount = 0;
      return;
    }
    case X_SWITCH: {
      Val c = get(f, x.o[0]);
      if (c.e) c = V(sub(s, c.e));
      if (!c.e) {
        int t = x.t;
        for (auto &k : x.cases) if (k.first == c.c) { t = k.second; break; }
        jump(s, t); return;
      }
      std::map<int, E> byTarget;
      E none = mkBool(true);
      for (auto &k : x.cases) {
        E q = mkBin(EQ, mkConst(x.w2, k.first), c.e);
        auto &t = byTarget[k.second]; t = t ? mkBin(OR, t, q) : q;
        none = mkBin(AND, none, mkNot(q));
      }
      for (auto &k : byTarget) if (k.first != x.t) if (branch(s, k.second)) { jump(s, k.first); return; }
      jump(s, x.t); return;
    }
    case X_RET: {
      Val v;
      if (!x.o.empty()) v = get(f, x.o[0]);
      popFrame(s);
      if (s.fr.empty()) return;
      finishCall(s, v);
      return;
    }
    case X_SELECT: {
      Val c = get(f, x.o[0]);
      if (c.e) c = V(sub(s, c.e));
      if (!c.e) { set(get(s.fr.back(), x.o[(c.c & 1) ? 1 : 2])); return; }
      Val a = get(f, x.o[1]), b = get(f, x.o[2]);
      if (x.w && !x.I->getType()->isPointerTy()) { set(V(mkIte(c.e, toE(a, x.w), toE(b, x.w)))); return; }
      bool t = branch(s, c.e);
      set(get(s.fr.back(), x.o[t ? 1 : 2])); return;
    }
    case X_CALL: doCall(s, x); return;
    case X_LPAD: {
      Val v; v.e = P.intern(AGG, 1, mkConst(64, s.excObj), mkConst(32, s.excSel & 0xffffffff), 0, 2, 0);
      set(v); return;
    }
    case X_RESUME: {
      Val v = get(f, x.o[0]);
      u64 o = getAgg(v, 0).c;
      unwind(s, o, s.excTi && o == s.excObj ? s.excTi : s.excTi, false);
      return;
    }
    case X_EXTRACTV: {
      Val v = get(f, x.o[0]);
      auto idx = cast<ExtractValueInst>(x.I)->getIndices();
      for (unsigned i : idx) { if (i > 2) unsup(s, "aggregate index"); v = getAgg(v, i); }
      set(v); return;
    }
    case X_INSERTV: {
      Val v = get(f, x.o[0]), n = get(f, x.o[1]);
      auto *iv = cast<InsertValueInst>(x.I);
      if (iv->getNumIndices() != 1 || iv->getIndices()[0] > 2) unsup(s, "nested insertvalue");
      E k[3] = {v.e ? v.e->a : nullptr, v.e ? v.e->b : nullptr, v.e ? v.e->d : nullptr};
      Type *et = iv->getInsertedValueOperand()->getType();
      k[iv->getIndices()[0]] = isAgg(et) ? n.e : toE(n, tyW(et));
      Val r; r.e = P.intern(AGG, 1, k[0], k[1], k[2], 3, 0);
      set(r); return;
    }
    case X_RMW: {
      u64 p = ptrOf(s, get(f, x.o[0]));
      Val v = get(s.fr.back(), x.o[1]), old = loadBits(s, p, x.w);
      E a = toE(old, x.w), b = toE(v, x.w), r;
      switch (cast<AtomicRMWInst>(x.I)->getOperation()) {
        case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = mkBin(ADD, a, b); break; case AtomicRMWInst::Sub: r = mkBin(SUB, a, b); break;
        case AtomicRMWInst::And: r = mkBin(AND, a, b); break; case AtomicRMWInst::Or: r = mkBin(OR, a, b); break;
        default: unsup(s, "atomic operation");
      }
      storeBits(s, p, V(r), x.w);
      set(old); return;
    }
    case X_CMPXCHG: {
      u64 p = ptrOf(s, get(f, x.o[0]));
      Val old = loadBits(s, p, x.w2), cmp = get(s.fr.back(), x.o[1]), nw = get(s.fr.back(), x.o[2]);
      E eq = mkBin(EQ, toE(old, x.w2), toE(cmp, x.w2));
      storeBits(s, p, V(mkIte(eq, toE(nw, x.w2), toE(old, x.w2))), x.w2);
      Val r; r.e = P.intern(AGG, 1, toE(old, x.w2), eq, 0, 2, 0);
      set(r); return;
    }
    case X_UNREACH: fatal(s, "abort", "unreachable code reached");
    default: {
      std::string t; raw_string_ostream os(t); x.I->print(os);
      unsup(s, "instruction " + t.substr(0, 80));
    }
  }
}

static bool runState(State &s) {  // true when the path completed
  try {
    u64 n = 0;
    while (!s.fr.empty()) {
      step(s);
      if ((++n & 0x3fff) == 0 && nowS() > deadline) { inconcl["time budget exceeded"]++; stopAll = true; return false; }
    }
    return true;
  } catch (PathEnd &e) {
    if (e.why == "assume") nPruned++;
    return false;
  }
}

// ---------------------------------------------------------------- output
static std::string js(const std::string &x) {
  std::string r = "\"";
  for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r + "\"";
}

int main(int argc, char **argv) {
  std::string bc, entry;
  outDir = ".";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--entry") entry = nx(); else if (a == "--arg") args.push_back(strtoull(nx().c_str(), 0, 0));
    else if (a == "--out") outDir = nx(); else if (a == "--time") maxTime = atof(nx().c_str()); else if (a == "--steps") maxSteps = atoll(nx().c_str());
    else if (a == "--viol") maxViol = atoll(nx().c_str()); else if (a == "--samples") nSamples = atoll(nx().c_str());
    else if (a == "--conc") concLimit = atoll(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--restrict") restricted = true; else if (a == "--seed") seed = atoi(nx().c_str());
    else if (a == "--qtimeout") S.timeoutMs = atoi(nx().c_str());
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6ULL << 30; setrlimit(RLIMIT_AS, &rl);
  tStart = nowS();
  deadline = tStart + maxTime;
  SMDiagnostic err;
  M = parseIRFile(bc, err, CTX);
  if (!M) { err.print("symex", errs()); return 2; }
  DL = &M->getDataLayout();
  initBuiltins();
  State *s0 = new State;
  bootState = s0;
  // external objects
  for (auto &b : stdBase) { mkExt(*s0, b.first); mkExt(*s0, b.second); mkExt(*s0, "_ZTV" + b.first.substr(4)); mkExt(*s0, "_ZTV" + b.second.substr(4)); }
  mkExt(*s0, "errno");
  mkExt(*s0, "@ssvtable");
  emptyStr = newObj(*s0, 8, 1, false);
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    if (g.isDeclaration()) {
      std::string n = g.getName().str();
      if (g.hasExternalWeakLinkage()) { gaddr[&g] = 0; continue; }
      mkExt(*s0, n);
      gaddr[&g] = extObj[n];
    } else {
      u64 a = newObj(*s0, DL->getTypeAllocSize(g.getValueType()).getFixedValue(), 1, false);
      gaddr[&g] = a;
      if (g.getName().starts_with("_ZTI")) tiName[a] = g.getName().str();
    }
  }
  { // streams: give std::cout etc. a vtable of zeros
    for (auto n : {"_ZSt4cout", "_ZSt4cerr", "_ZSt4clog"}) if (extObj.count(n)) { u64 vt = extObj["@ssvtable"] + 256; memcpy(findW(*s0, extObj[n])->d, &vt, 8); }
  }
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.") || g.isDeclaration()) continue;
    Obj *o = findW(*s0, gaddr[&g]);
    initConst(o->d, g.getInitializer());
    if (g.isConstant()) o->ro = true;
  }
  // constructors
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<u64, Function *>> v;
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); v.push_back({(u64)constInt(cs->getOperand(0)), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) {
      enter(*s0, getFn(p.second), {});
      u64 save = maxSteps; maxSteps = 1ULL << 40;
      bool ok = runState(*s0);
      maxSteps = save;
      if (!ok || !work.empty()) { fprintf(stderr, "static initialisation failed: %s\n", p.second->getName().str().c_str()); return 2; }
    }
  }
  s0->steps = 0;
  for (auto *f : fns) f->calls = 0;
  nInstr = 0;
  Function *ef = M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  enter(*s0, getFn(ef), {});
  work.push_back(s0);
  nStates = 1;
  u64 sampleEvery = 1;
  size_t maxDepth = 0, maxSymBytes = 0, maxCons = 0; u64 maxPathSteps = 0;
  while (!work.empty() && !stopAll) {
    if (nowS() > deadline) { inconcl["time budget exceeded"]++; break; }
    State *s = work.back(); work.pop_back();
    bool done = runState(*s);
    if (done) {
      nPaths++;
      maxDepth = std::max(maxDepth, (size_t)s->depth);
      size_t nb = 0; for (auto &i : s->ins) nb += i.vars.size();
      maxSymBytes = std::max(maxSymBytes, nb);
      maxCons = std::max(maxCons, s->cons.size());
      maxPathSteps = std::max(maxPathSteps, s->steps);
      if (nPaths % sampleEvery == 0) {
        std::string fn = outDir + "/sample" + std::to_string(nPaths % (sampleEvery * nSamples * 2) / sampleEvery) + ".in";
        if (sampleFiles.size() < nSamples) {
          fn = outDir + "/sample" + std::to_string(sampleFiles.size()) + ".in";
          dumpInput(fn, *s, s->model, "sample", "", "", true);
          sampleFiles.push_back(fn);
        } else {
          // keep a spread: replace pseudo-randomly and thin out
          seed = seed * 1103515245u + 12345u;
          fn = sampleFiles[(seed >> 16) % sampleFiles.size()];
          dumpInput(fn, *s, s->model, "sample", "", "", true);
          sampleEvery = std::max<u64>(1, nPaths / 32);
        }
      }
    }
    delete s;
  }
  u64 left = work.size();
  double wall = nowS() - tStart;
  std::ofstream o(outDir + "/result.json");
  o << "{\"entry\":" << js(entry) << ",\"args\":[";
  for (size_t i = 0; i < args.size(); ++i) o << (i ? "," : "") << args[i];
  o << "],\"paths\":" << nPaths << ",\"pruned\":" << nPruned << ",\"states\":" << nStates << ",\"forks\":" << nForks << ",\"instructions\":" << nInstr
    << ",\"checks\":" << nChecks << ",\"checks_symbolic\":" << nChecksSolved << ",\"queries\":" << S.st.queries << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat
    << ",\"unknown\":" << S.st.unknown << ",\"cache_hits\":" << S.st.cacheHits << ",\"interval_hits\":" << nRange << ",\"solver_s\":" << S.st.time << ",\"solver_max_s\":" << S.st.maxTime
    << ",\"wall_s\":" << wall << ",\"unexplored\":" << left << ",\"max_depth\":" << maxDepth << ",\"max_sym_bytes\":" << maxSymBytes << ",\"max_constraints\":" << maxCons << ",\"max_path_steps\":" << maxPathSteps << ",\"exprs\":" << P.cnt << ",\"uninit_reads\":" << nUninit;
  o << ",\"reach\":{"; bool c = false;
  for (auto &r : reachN) { o << (c ? "," : "") << js(r.first) << ":" << r.second; c = true; }
  o << "},\"inconclusive\":{"; c = false;
  for (auto &r : inconcl) { o << (c ? "," : "") << js(r.first) << ":" << r.second; c = true; }
  o << "},\"functions\":{"; c = false;
  for (auto *f : fns) if (f->calls && f->F && has(f->name, "eipScanner")) {
    size_t cv = 0; for (char k : f->covered) cv += k;
    o << (c ? "," : "") << js(f->name) << ":[" << f->calls << "," << cv << "," << f->covered.size() << "]"; c = true;
  }
  o << "},\"violations\":["; c = false;
  for (auto &v : viols) { o << (c ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"label\":" << js(v.label) << ",\"where\":" << js(v.where) << ",\"file\":" << js(v.file) << "}"; c = true; }
  o << "],\"samples\":["; c = false;
  for (auto &v : sampleFiles) { o << (c ? "," : "") << js(v); c = true; }
  o << "]}\n";
  o.close();
  _Exit(0);
}
