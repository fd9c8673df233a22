// Feasibility queries: exact single-byte domains, constraint slicing, model reuse, caching, z3.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <bitset>
#include <chrono>
#include <memory>

typedef std::bitset<256> Dom;
static const Dom *tt(E e) { // truth table of a boolean over one byte variable
  static std::unordered_map<E, Dom *> cache;
  auto it = cache.find(e); if (it != cache.end()) return it->second;
  Dom *d = nullptr;
  if (const u64 *t = vtab(e)) { d = new Dom(); for (int i = 0; i < 256; i++) if (t[i] & 1) d->set(i); }
  cache[e] = d; return d;
}

struct SolverStats { u64 queries = 0, fd = 0, range = 0, modelHits = 0, cacheHits = 0, z3 = 0, z3sat = 0, z3unsat = 0, unknown = 0, fpq = 0; double z3time = 0; };
static SolverStats g_ss;
static unsigned g_z3Timeout = 60000000; // resource units per query (roughly 1-2 million a second)
static double g_solverSecondsLeft();
static std::string g_dumpDir; static int g_dumpMax = 0, g_dumped = 0;

struct Z3 {
  Z3_context c; Z3_solver s = nullptr; u64 sinceReset = 0; std::vector<Z3_ast> lits; std::unordered_map<E, Z3_ast> assertLit;
  Z3_sort rm; Z3_ast rne, rtz; std::vector<Z3_ast> keep;
  static void onErr(Z3_context c, Z3_error_code e) { die(std::string("z3 error: ") + Z3_get_error_msg(c, e)); }
  Z3() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(c, onErr);
    rne = K(Z3_mk_fpa_rne(c)); rtz = K(Z3_mk_fpa_rtz(c));
  }
  Z3_ast K(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_sort bv(unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto &x = m[w]; if (!x) { x = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, Z3_sort_to_ast(c, x)); } return x; }
  Z3_sort fs(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(c) : w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort(c, 15, 64); }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, bv(1)), Z3_mk_unsigned_int64(c, 0, bv(1))); }
  // widths: booleans (w==1) are kept as z3 Bool
  Z3_ast asBV(E e) { Z3_ast a = tr(e); return e->w == 1 ? b2bv(a) : a; }
  Z3_ast fromBV(Z3_ast a, unsigned w) { return w == 1 ? Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, bv(1))) : a; }
  Z3_ast toFP(E e) {
    if (e->w == 80) { Z3_ast x = asBV(e); return K(Z3_mk_fpa_to_fp_bv(c, K(Z3_mk_concat(c, Z3_mk_extract(c, 79, 64, x), Z3_mk_extract(c, 62, 0, x))), fs(80))); } // x87: the explicit integer bit is redundant in canonical values
    return K(Z3_mk_fpa_to_fp_bv(c, asBV(e), fs(e->w)));
  }
  Z3_ast fromFP(Z3_ast f, unsigned w) {
    Z3_ast b = K(Z3_mk_fpa_to_ieee_bv(c, f)); if (w != 80) return b;
    Z3_ast ex = K(Z3_mk_extract(c, 77, 63, b)); Z3_ast ib = b2bv(Z3_mk_not(c, Z3_mk_eq(c, ex, Z3_mk_unsigned_int64(c, 0, bv(15)))));
    return Z3_mk_concat(c, K(Z3_mk_extract(c, 78, 63, b)), K(Z3_mk_concat(c, ib, Z3_mk_extract(c, 62, 0, b))));
  }
  Z3_ast tr(E e) {
    if (e->z) return (Z3_ast)e->z;
    // iterative for depth: recurse on children first using explicit stack
    std::vector<E> st{e};
    while (!st.empty()) {
      E x = st.back(); if (x->z) { st.pop_back(); continue; }
      bool ready = true;
      for (E y : {x->a, x->b, x->c}) if (y && !y->z) { st.push_back(y); ready = false; }
      if (!ready) continue;
      x->z = K(tr1(x)); st.pop_back();
    }
    return (Z3_ast)e->z;
  }
  Z3_ast tr1(E e) {
    auto A = [&] { return (Z3_ast)e->a->z; }; auto B = [&] { return (Z3_ast)e->b->z; };
    switch (e->op) {
      case EConst:
        if (e->w == 1) return e->k ? Z3_mk_true(c) : Z3_mk_false(c);
        if (e->w <= 64) return Z3_mk_unsigned_int64(c, e->k, bv(e->w));
        return Z3_mk_concat(c, Z3_mk_unsigned_int64(c, e->khi, bv(e->w - 64)), Z3_mk_unsigned_int64(c, e->k, bv(64)));
      case EVar: { Z3_sort s = e->w == 1 ? Z3_mk_bool_sort(c) : bv(e->w); return Z3_mk_const(c, Z3_mk_int_symbol(c, (int)e->k), s); }
      case ENot: if (Z3_get_sort_kind(c, Z3_get_sort(c, A())) != Z3_BOOL_SORT) die("sort " + std::to_string(e->w) + "/" + std::to_string(e->a->w) + ": " + showE(e)); return Z3_mk_not(c, A());
      case EAnd: if (e->w == 1) { Z3_ast x[2] = {A(), B()}; return Z3_mk_and(c, 2, x); } return Z3_mk_bvand(c, A(), B());
      case EOr: if (e->w == 1) { Z3_ast x[2] = {A(), B()}; return Z3_mk_or(c, 2, x); } return Z3_mk_bvor(c, A(), B());
      case EXor: if (e->w == 1) return Z3_mk_xor(c, A(), B()); return Z3_mk_bvxor(c, A(), B());
      case EEq: return Z3_mk_eq(c, A(), B());
      case EUlt: return Z3_mk_bvult(c, A(), B()); case ESlt: return Z3_mk_bvslt(c, A(), B());
      case EIte: return Z3_mk_ite(c, A(), B(), (Z3_ast)e->c->z);
      case EZExt: return Z3_mk_zero_ext(c, e->w - e->a->w, asBV(e->a)); case ESExt: return Z3_mk_sign_ext(c, e->w - e->a->w, asBV(e->a));
      case EExtract: return fromBV(Z3_mk_extract(c, (unsigned)e->k + e->w - 1, (unsigned)e->k, A()), e->w);
      case EConcat: return Z3_mk_concat(c, asBV(e->a), asBV(e->b));
      case EFCmp: {
        Z3_ast x = toFP(e->a), y = toFP(e->b); Z3_ast nx = Z3_mk_fpa_is_nan(c, x), ny = Z3_mk_fpa_is_nan(c, y); Z3_ast q[2] = {nx, ny}; Z3_ast un = K(Z3_mk_or(c, 2, q)); Z3_ast r;
        switch (e->aux & 7) { case 0: r = Z3_mk_false(c); break; case 1: r = Z3_mk_fpa_eq(c, x, y); break; case 2: r = Z3_mk_fpa_gt(c, x, y); break; case 3: r = Z3_mk_fpa_geq(c, x, y); break;
          case 4: r = Z3_mk_fpa_lt(c, x, y); break; case 5: r = Z3_mk_fpa_leq(c, x, y); break; case 6: { Z3_ast z[2] = {Z3_mk_not(c, un), Z3_mk_not(c, Z3_mk_fpa_eq(c, x, y))}; r = Z3_mk_and(c, 2, z); break; } default: r = Z3_mk_not(c, un); }
        if (e->aux & 8) { if ((e->aux & 7) == 7) return Z3_mk_true(c); Z3_ast z[2] = {un, r}; r = Z3_mk_or(c, 2, z); }
        return r; }
      case ESI2F: return fromFP(Z3_mk_fpa_to_fp_signed(c, rne, asBV(e->a), fs(e->w)), e->w);
      case EUI2F: return fromFP(Z3_mk_fpa_to_fp_unsigned(c, rne, asBV(e->a), fs(e->w)), e->w);
      case EF2SI: return Z3_mk_fpa_to_sbv(c, rtz, toFP(e->a), e->w); case EF2UI: return Z3_mk_fpa_to_ubv(c, rtz, toFP(e->a), e->w);
      case EFExt: case EFTrunc: return fromFP(Z3_mk_fpa_to_fp_float(c, rne, toFP(e->a), fs(e->w)), e->w);
      case EFNeg: { Z3_ast one = Z3_mk_unsigned_int64(c, 1, bv(1)); return Z3_mk_concat(c, Z3_mk_bvxor(c, Z3_mk_extract(c, e->w - 1, e->w - 1, A()), one), Z3_mk_extract(c, e->w - 2, 0, A())); }
      case EFAbs: return Z3_mk_concat(c, Z3_mk_unsigned_int64(c, 0, bv(1)), Z3_mk_extract(c, e->w - 2, 0, A()));
      case EFSqrt: return fromFP(Z3_mk_fpa_sqrt(c, rne, toFP(e->a)), e->w);
      case EFAdd: return fromFP(Z3_mk_fpa_add(c, rne, toFP(e->a), toFP(e->b)), e->w);
      case EFSub: return fromFP(Z3_mk_fpa_sub(c, rne, toFP(e->a), toFP(e->b)), e->w);
      case EFMul: return fromFP(Z3_mk_fpa_mul(c, rne, toFP(e->a), toFP(e->b)), e->w);
      case EFDiv: return fromFP(Z3_mk_fpa_div(c, rne, toFP(e->a), toFP(e->b)), e->w);
      default: break;
    }
    if (e->w == 1) { // one-bit arithmetic of the remaining kinds
      Z3_ast x = asBV(e->a), y = asBV(e->b); Z3_ast r = arith(e->op, x, y); return fromBV(r, 1);
    }
    return arith(e->op, A(), B());
  }
  Z3_ast arith(u8 op, Z3_ast x, Z3_ast y) {
    switch (op) {
      case EAdd: return Z3_mk_bvadd(c, x, y); case ESub: return Z3_mk_bvsub(c, x, y); case EMul: return Z3_mk_bvmul(c, x, y);
      case EUDiv: return Z3_mk_bvudiv(c, x, y); case ESDiv: return Z3_mk_bvsdiv(c, x, y); case EURem: return Z3_mk_bvurem(c, x, y); case ESRem: return Z3_mk_bvsrem(c, x, y);
      case EShl: return Z3_mk_bvshl(c, x, y); case ELShr: return Z3_mk_bvlshr(c, x, y); case EAShr: return Z3_mk_bvashr(c, x, y);
    }
    die("z3 translation of op");
  }
  void params(Z3_solver sv) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); double left = g_solverSecondsLeft(), lim = left < 1 ? 1.5e6 : left * 1.5e6; Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), lim < g_z3Timeout ? (unsigned)lim : g_z3Timeout); Z3_solver_set_params(c, sv, p); Z3_params_dec_ref(c, p); }
  void fresh() {
    if (s) Z3_solver_dec_ref(c, s);
    s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, s); params(s);
    for (auto &p : assertLit) Z3_dec_ref(c, p.second);
    assertLit.clear(); sinceReset = 0;
  }
  Z3_ast lit(E e) {
    auto it = assertLit.find(e); if (it != assertLit.end()) return it->second;
    Z3_ast p = K(Z3_mk_fresh_const(c, "p", Z3_mk_bool_sort(c)));
    Z3_solver_assert(c, s, Z3_mk_implies(c, p, tr(e)));
    assertLit[e] = p; return p;
  }
  void dump(const std::vector<E> &cs, Z3_lbool r) {
    if (g_dumped >= g_dumpMax || g_dumpDir.empty()) return;
    std::vector<Z3_ast> as; for (E e : cs) as.push_back(tr(e));
    Z3_ast last = as.back(); as.pop_back();
    const char *t = Z3_benchmark_to_smtlib_string(c, "q", "QF_BV", r == Z3_L_TRUE ? "sat" : "unsat", "", (unsigned)as.size(), as.data(), last);
    char fn[512]; snprintf(fn, 512, "%s/q%d_%d.smt2", g_dumpDir.c_str(), (int)getpid(), g_dumped++);
    if (FILE *f = fopen(fn, "w")) { fputs(t, f); fclose(f); }
  }
  // 1 sat (fills m for vars), 0 unsat, -1 unknown
  int check(const std::vector<E> &cs, const std::vector<int> &vars, Model &m) {
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false; for (E e : cs) fp |= e->hasFP;
    Z3_lbool r; Z3_solver sv;
    if (fp) {
      g_ss.fpq++;
      sv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_FPBV")); Z3_solver_inc_ref(c, sv); params(sv);
      for (E e : cs) Z3_solver_assert(c, sv, tr(e));
      r = Z3_solver_check(c, sv);
    } else {
      if (!s || sinceReset > 3000) fresh();
      sinceReset++;
      std::vector<Z3_ast> as; for (E e : cs) as.push_back(lit(e));
      sv = s; if (g_solverSecondsLeft() * 1.5e6 < g_z3Timeout) params(s); r = Z3_solver_check_assumptions(c, s, (unsigned)as.size(), as.data());
      if (r == Z3_L_UNDEF) { // one retry, fresh non-incremental
        fresh(); sv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, sv); params(sv);
        for (E e : cs) Z3_solver_assert(c, sv, tr(e));
        r = Z3_solver_check(c, sv); fp = true;
      }
    }
    g_ss.z3++;
    if (r == Z3_L_TRUE) {
      g_ss.z3sat++;
      Z3_model mod = Z3_solver_get_model(c, sv); Z3_model_inc_ref(c, mod);
      for (int v : vars) {
        Z3_ast x = tr(g_varExpr[v]), o; u64 val = 0;
        if (Z3_model_eval(c, mod, x, true, &o)) {
          Z3_inc_ref(c, o);
          if (g_vars[v].w == 1) val = Z3_get_bool_value(c, o) == Z3_L_TRUE; else { uint64_t t = 0; if (Z3_get_ast_kind(c, o) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(c, o, &t); val = t; }
          Z3_dec_ref(c, o);
        }
        m.set(v, val);
      }
      Z3_model_dec_ref(c, mod);
    } else if (r == Z3_L_FALSE) g_ss.z3unsat++; else g_ss.unknown++;
    if (r != Z3_L_UNDEF) dump(cs, r);
    if (fp) Z3_solver_dec_ref(c, sv);
    g_ss.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  }
};
static Z3 *g_z3 = nullptr;

// Path condition of one state.
struct PC {
  std::vector<E> cs;
  std::vector<E> known;                 // branch conditions taken, as written (cs holds them simplified)
  std::vector<std::pair<int, Dom>> dom; // sorted by var
  std::vector<bool> multi;              // variable occurs in a multi-variable constraint
  Model model;                          // satisfies cs
  Dom *domOf(int v) { for (auto &p : dom) if (p.first == v) return &p.second; return nullptr; }
  bool isMulti(int v) const { return (size_t)v < multi.size() && multi[v]; }
  void setMulti(int v) { if ((size_t)v >= multi.size()) multi.resize(v + 1, false); multi[v] = true; }
};
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct CacheEnt { int res; std::vector<std::pair<int, u64>> vals; };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> g_qcache;

// Unsigned interval of an expression under the exact domains of the single-byte variables of a path condition.
struct Rng { u64 lo, hi; };
struct RngCtx { PC &pc; std::unordered_map<E, Rng> memo; int budget = 4000; };
static Rng rng(RngCtx &c, E e) {
  if (isC(e)) return {e->khi ? ~0ull : e->k, e->khi ? ~0ull : e->k};
  u64 m = e->w > 64 ? ~0ull : maskw(e->w); Rng all{0, m};
  if (e->w > 64 || e->hasFP) return all;
  auto it = c.memo.find(e); if (it != c.memo.end()) return it->second;
  if (--c.budget < 0) return all;
  Rng r = all; const u64 *t;
  if (fdable(e) && (t = vtab(e))) {
    Dom *d = c.pc.domOf(e->var1); unsigned n = 1u << g_vars[e->var1].w; r = {~0ull, 0};
    for (unsigned i = 0; i < n; i++) if (!d || d->test(i)) { r.lo = std::min(r.lo, t[i]); r.hi = std::max(r.hi, t[i]); }
    if (r.lo > r.hi) r = all;
    return c.memo[e] = r;
  }
  auto A = [&] { return rng(c, e->a); }; auto B = [&] { return rng(c, e->b); };
  switch (e->op) {
    case EZExt: r = A(); break;
    case EAdd: { Rng a = A(), b = B(); if (a.hi <= m - b.hi) r = {a.lo + b.lo, a.hi + b.hi}; else if (a.lo > m - b.lo) r = {(a.lo + b.lo) & m, (a.hi + b.hi) & m}; break; }
    case ESub: { Rng a = A(), b = B(); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break; }
    case EMul: { Rng a = A(), b = B(); if ((u128)a.hi * b.hi <= m) r = {a.lo * b.lo, a.hi * b.hi}; break; }
    case EUDiv: { Rng a = A(), b = B(); if (b.lo) r = {a.lo / b.hi, a.hi / b.lo}; break; }
    case EURem: { Rng a = A(), b = B(); if (b.lo) { r = {0, std::min(a.hi, b.hi - 1)}; if (a.hi < b.lo) r = a; } break; }
    case EAnd: { Rng a = A(), b = B(); r = {0, std::min(a.hi, b.hi)}; if (e->w == 1) r.lo = a.lo & b.lo; break; }
    case EOr: case EXor: { Rng a = A(), b = B(); u64 v = a.hi | b.hi; for (int k = 1; k < 64; k <<= 1) v |= v >> k; r = {e->op == EOr ? std::max(a.lo, b.lo) : 0, std::min(v, m)}; break; }
    case ELShr: { Rng a = A(), b = B(); if (b.lo == b.hi && b.lo < e->w) r = {a.lo >> b.lo, a.hi >> b.lo}; break; }
    case EExtract: { if (e->a->w > 64) break; Rng a = A(); unsigned s = (unsigned)e->k; if ((a.hi >> s) <= m) r = {a.lo >> s, a.hi >> s}; break; }
    case EConcat: { Rng a = A(), b = B(); unsigned s = e->b->w; r = {(a.lo << s) + b.lo, (a.hi << s) + b.hi}; break; }
    case EIte: { Rng q = A(); Rng b = B(), d = rng(c, e->c); r = q.lo ? b : !q.hi ? d : Rng{std::min(b.lo, d.lo), std::max(b.hi, d.hi)}; break; }
    case ENot: { Rng a = A(); r = {1 - a.hi, 1 - a.lo}; break; }
    case EEq: if (e->a->w <= 64) { Rng a = A(), b = B(); if (a.hi < b.lo || b.hi < a.lo) r = {0, 0}; else if (a.lo == a.hi && b.lo == b.hi) r = {1, 1}; } break;
    case EUlt: if (e->a->w <= 64) { Rng a = A(), b = B(); if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; } break;
    case ESlt: if (e->a->w <= 64) { Rng a = A(), b = B(); u64 sg = maskw(e->a->w) >> 1; if (a.hi <= sg && b.hi <= sg) { if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; } } break;
    default: break;
  }
  return c.memo[e] = r;
}
// Rewrite an expression into one that is equal under the path condition's single-byte domains.
struct SimpCtx { RngCtx r; std::unordered_map<E, E> memo; int budget = 30000; };
static E simp(SimpCtx &c, E e) {
  if (e->var1 == -1 || e->op == EVar || e->hasFP) return e;
  auto it = c.memo.find(e); if (it != c.memo.end()) return it->second;
  if (--c.budget < 0) return e;
  if (fdable(e)) {
    E r = e; const u64 *t = vtab(e);
    if (t) {
      Dom *d = c.r.pc.domOf(e->var1); unsigned n = 1u << g_vars[e->var1].w; u64 m = maskw(e->w), base = 0, diff = 0; bool any = false, con = true, aff = true;
      for (unsigned i = 0; i < n; i++) if (!d || d->test(i)) { u64 df = (t[i] - i) & m; if (!any) { any = true; base = t[i]; diff = df; } else { con &= t[i] == base; aff &= df == diff; } }
      if (any && con) r = mkC(base, e->w);
      else if (any && aff) { E v = g_varExpr[e->var1]; v = v->w < e->w ? mkZExt(v, e->w) : v->w > e->w ? mkExtract(v, 0, e->w) : v; r = mkBin(EAdd, v, mkC(diff, e->w)); }
    }
    return c.memo[e] = r;
  }
  E a = e->a ? simp(c, e->a) : nullptr, b = e->b ? simp(c, e->b) : nullptr, d = e->c ? simp(c, e->c) : nullptr, r = e;
  if (a != e->a || b != e->b || d != e->c) switch (e->op) {
    case ENot: r = mkNot(a); break; case EZExt: r = mkZExt(a, e->w); break; case ESExt: r = mkSExt(a, e->w); break;
    case EExtract: r = mkExtract(a, (unsigned)e->k, e->w); break; case EConcat: r = mkConcat(a, b); break; case EIte: r = mkIte(a, b, d); break;
    default: r = mkBin(e->op, a, b); break;
  }
  if (r != e && fdable(r)) r = simp(c, r);
  if (!isC(r) && r->w <= 64) { Rng q = rng(c.r, r); if (q.lo == q.hi) r = mkC(q.lo, r->w); }
  return c.memo[e] = r;
}
static E simpUnder(PC &pc, E e) { if (e->hasFP || isC(e)) return e; SimpCtx c{RngCtx{pc, {}, 60000}, {}}; return simp(c, e); }
// Is cs && e satisfiable?  1/0/-1.  On 1, out is a model of cs && e.
static int feasible(PC &pc, E e, Model &out) {
  if (isC(e)) { if (e->k) { out = pc.model; return 1; } return 0; }
  g_ss.queries++;
  if (evalE(e, pc.model)) { g_ss.modelHits++; out = pc.model; return 1; }
  if (fdable(e)) if (const Dom *t = tt(e)) {
    int v = e->var1; Dom *d = pc.domOf(v); Dom x = *t; if (d) x &= *d;
    if (g_vars[v].w < 8) for (int i = 1 << g_vars[v].w; i < 256; i++) x.reset(i);
    if (x.none()) { g_ss.fd++; return 0; }
    if (!pc.isMulti(v)) { g_ss.fd++; out = pc.model; out.set(v, x._Find_first()); return 1; }
  }
  if (!e->hasFP) {
    { RngCtx rc{pc, {}}; if (rng(rc, e).hi == 0) { g_ss.range++; return 0; } }
    E t = simpUnder(pc, e);
    if (t != e) { if (isC(t)) g_ss.range++; g_ss.queries--; return feasible(pc, t, out); }
    // a disjunction is feasible if one side is
    E x = nullptr, y = nullptr;
    if (e->op == EOr && e->w == 1) { x = e->a; y = e->b; } else if (e->op == ENot && e->a->op == EAnd) { x = mkNot(e->a->a); y = mkNot(e->a->b); }
    if (x) { g_ss.queries--; int r1 = feasible(pc, x, out); if (r1 == 1) return 1; int r2 = feasible(pc, y, out); return r2 == 1 ? 1 : r1 == -1 || r2 == -1 ? -1 : 0; }
  }
  // slice
  std::vector<E> rel; std::vector<int> vars = *support(e);
  std::vector<char> used(pc.cs.size(), 0); bool ch = true;
  std::vector<char> inv; auto has = [&](int v) { return (size_t)v < inv.size() && inv[v]; };
  auto addv = [&](int v) { if ((size_t)v >= inv.size()) inv.resize(v + 1, 0); if (!inv[v]) { inv[v] = 1; return true; } return false; };
  for (int v : vars) addv(v);
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.cs.size(); i++) if (!used[i]) {
      auto *s = support(pc.cs[i]); bool t = false; for (int v : *s) if (has(v)) { t = true; break; }
      if (t) { used[i] = 1; rel.push_back(pc.cs[i]); for (int v : *s) if (addv(v)) { vars.push_back(v); ch = true; } }
    }
  }
  std::vector<u32> key; for (E x : rel) key.push_back(x->id);
  std::sort(key.begin(), key.end()); key.push_back(e->id);
  auto it = g_qcache.find(key);
  if (it != g_qcache.end()) {
    g_ss.cacheHits++;
    if (it->second.res == 1) { out = pc.model; for (auto &p : it->second.vals) out.set(p.first, p.second); }
    return it->second.res;
  }
  rel.push_back(e);
  Model m;
  if (!g_z3) g_z3 = new Z3();
  int r = g_z3->check(rel, vars, m);
  CacheEnt ce; ce.res = r;
  if (r == 1) {
    out = pc.model; for (int v : vars) { out.set(v, m.get(v)); ce.vals.push_back({v, m.get(v)}); }
    for (E x : rel) if (!evalE(x, out)) die("model does not satisfy its own constraint (encoding bug): " + showE(x));
  }
  if (g_qcache.size() > 400000) g_qcache.clear();
  g_qcache[key] = ce;
  return r;
}
static void addConstraint(PC &pc, E e, bool top = true) {
  if (isC(e)) return;
  if (top && !fdable(e)) { pc.known.push_back(e); e = simpUnder(pc, e); if (isC(e)) { if (!e->k) die("contradictory path condition"); return; } }
  if (e->op == EAnd && e->w == 1) { addConstraint(pc, e->a, false); addConstraint(pc, e->b, false); return; }
  if (e->op == ENot && e->a->op == EOr) { addConstraint(pc, mkNot(e->a->a), false); addConstraint(pc, mkNot(e->a->b), false); return; }
  if (fdable(e)) if (const Dom *t = tt(e)) {
    Dom *d = pc.domOf(e->var1);
    if (d) { Dom x = *d & *t; if (x == *d) return; *d = x; } else { if (t->all()) return; pc.dom.push_back({e->var1, *t}); }
    pc.cs.push_back(e); return;
  }
  for (E x : pc.cs) if (x == e) return;
  pc.cs.push_back(e);
  auto *s = support(e); if (s->size() > 1 || g_vars[(*s)[0]].w <= 8) for (int v : *s) pc.setMulti(v);
}
