// Hash-consed bit-vector expression DAG with simplification, evaluation and
// exact finite-domain tables for expressions over a single 8-bit variable.
#pragma once
#include <algorithm>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <unordered_map>
#include <vector>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
using u128 = unsigned __int128; using i128 = __int128;

enum Op : u8 {
  EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor, EShl, ELShr, EAShr,
  EEq, EUlt, ESlt, ENot, EZExt, ESExt, EExtract, EConcat, EIte,
  EFAdd, EFSub, EFMul, EFDiv, EFRem, EFCmp, ESI2F, EUI2F, EF2SI, EF2UI, EFExt, EFTrunc, EFNeg, EFAbs, EFSqrt
};
static const char *opname[] = {"const","var","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvand","bvor","bvxor",
  "bvshl","bvlshr","bvashr","=","bvult","bvslt","not","zext","sext","extract","concat","ite",
  "fadd","fsub","fmul","fdiv","frem","fcmp","si2f","ui2f","f2si","f2ui","fext","ftrunc","fneg","fabs","fsqrt"};

struct Expr {
  u8 op; u8 aux; u16 w; u32 id;
  int32_t var1;            // -1: no variable, >=0: exactly this one variable, -2: several
  bool hasFP;
  u64 k, khi;              // constant value / variable id / extract low bit
  Expr *a, *b, *c;
  u64 *vt;                 // value table over the single 8-bit variable
  void *z;                 // solver term
  const std::vector<int> *sup;
};
typedef Expr *E;

struct VarInfo { std::string name; u16 w; bool uninit; };
static std::vector<VarInfo> g_vars;
static std::vector<E> g_varExpr;
static u64 g_numExprs = 0;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 maskw128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) { if (w >= 64) return (i64)v; return (i64)(v << (64 - w)) >> (64 - w); }
static inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; return (i128)(v << (128 - w)) >> (128 - w); }
[[noreturn]] static void die(const std::string &s) { fprintf(stderr, "flysym: fatal: %s\n", s.c_str()); fflush(stderr); _exit(3); }

// ---------------------------------------------------------------- hash consing
struct ExprTable {
  std::vector<E> tab; size_t n = 0, mask;
  ExprTable() : tab(1 << 16, nullptr), mask((1 << 16) - 1) {}
  static u64 hashOf(u8 op, u8 aux, u16 w, u64 k, u64 khi, E a, E b, E c) {
    u64 h = op * 0x9E3779B97F4A7C15ull + aux * 0x1234567ull + w * 0xC2B2AE3D27D4EB4Full;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(k); if (khi) mix(khi * 31 + 7); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
    return h;
  }
  E get(u8 op, u8 aux, u16 w, u64 k, u64 khi, E a, E b, E c) {
    u64 h = hashOf(op, aux, w, k, khi, a, b, c);
    size_t i = h & mask;
    while (E e = tab[i]) {
      if (e->op == op && e->w == w && e->k == k && e->a == a && e->b == b && e->c == c && e->aux == aux && e->khi == khi) return e;
      i = (i + 1) & mask;
    }
    static char *arena = nullptr; static size_t left = 0;
    if (left < sizeof(Expr)) { left = sizeof(Expr) * 16384; arena = (char *)malloc(left); }
    E e = (E)arena; arena += sizeof(Expr); left -= sizeof(Expr);
    e->op = op; e->aux = aux; e->w = w; e->id = (u32)g_numExprs++; e->k = k; e->khi = khi; e->a = a; e->b = b; e->c = c;
    e->vt = nullptr; e->z = nullptr; e->sup = nullptr;
    int v = -1; bool fp = op >= EFAdd;
    if (op == EVar) v = (int)k;
    else for (E x : {a, b, c}) if (x) { fp |= x->hasFP; if (x->var1 == -1) continue; if (v == -1) v = x->var1; else if (v != x->var1) v = -2; }
    e->var1 = v; e->hasFP = fp;
    tab[i] = e; if (++n * 2 > mask) grow();
    return e;
  }
  void grow() {
    std::vector<E> old; old.swap(tab); mask = mask * 2 + 1; tab.assign(mask + 1, nullptr);
    for (E e : old) if (e) { size_t i = hashOf(e->op, e->aux, e->w, e->k, e->khi, e->a, e->b, e->c) & mask; while (tab[i]) i = (i + 1) & mask; tab[i] = e; }
  }
};
static ExprTable g_tab;

static inline bool isC(E e) { return e->op == EConst; }
static inline u128 cval(E e) { return ((u128)e->khi << 64) | e->k; }
static inline E mkC128(u128 v, unsigned w) { v &= maskw128(w); return g_tab.get(EConst, 0, w, (u64)v, (u64)(v >> 64), 0, 0, 0); }
static inline E mkC(u64 v, unsigned w) { return g_tab.get(EConst, 0, w, v & maskw(w), 0, 0, 0, 0); }
static inline E mkTrue() { static E t = mkC(1, 1); return t; }
static inline E mkFalse() { static E t = mkC(0, 1); return t; }
static E mkVar(const std::string &name, unsigned w, bool uninit) {
  static std::unordered_map<std::string, int> idx;
  std::string key = name + "#" + std::to_string(w);
  auto it = idx.find(key);
  if (it != idx.end()) return g_varExpr[it->second];
  int id = (int)g_vars.size(); g_vars.push_back({name, (u16)w, uninit}); idx[key] = id;
  E e = g_tab.get(EVar, 0, w, id, 0, 0, 0, 0); g_varExpr.push_back(e); return e;
}
static inline bool isVal(E e, u64 v) { return isC(e) && e->khi == 0 && e->k == v; }
static inline bool isOnes(E e) { return isC(e) && cval(e) == maskw128(e->w); }

// ---------------------------------------------------------------- floating point helpers
static inline double bits2d(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 d2bits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline float bits2f(u32 v) { float d; memcpy(&d, &v, 4); return d; }
static inline u32 f2bits(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static inline long double bits2ld(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static inline u128 ld2bits(long double d) { u128 v = 0; memcpy(&v, &d, 10); return v; }
static inline long double fpGet(u128 v, unsigned w) { return w == 64 ? (long double)bits2d((u64)v) : w == 32 ? (long double)bits2f((u32)v) : bits2ld(v); }
static inline u128 fpPut(long double d, unsigned w) { return w == 64 ? (u128)d2bits((double)d) : w == 32 ? (u128)f2bits((float)d) : ld2bits(d); }
template <class T> static bool fcmpT(unsigned pred, T x, T y) {
  bool un = x != x || y != y;
  switch (pred) { // LLVM FCmp predicates 0..15
    case 0: return false; case 1: return !un && x == y; case 2: return !un && x > y; case 3: return !un && x >= y;
    case 4: return !un && x < y; case 5: return !un && x <= y; case 6: return !un && x != y; case 7: return !un;
    case 8: return un; case 9: return un || x == y; case 10: return un || x > y; case 11: return un || x >= y;
    case 12: return un || x < y; case 13: return un || x <= y; case 14: return un || x != y; default: return true;
  }
}
static u128 fpBin(u8 op, unsigned w, u128 a, u128 b) {
  auto f = [&](auto x, auto y) { switch (op) { case EFAdd: return x + y; case EFSub: return x - y; case EFMul: return x * y; case EFDiv: return x / y; default: return (decltype(x))fmodl(x, y); } };
  if (w == 64) return d2bits(f(bits2d((u64)a), bits2d((u64)b)));
  if (w == 32) return f2bits(f(bits2f((u32)a), bits2f((u32)b)));
  return ld2bits(f(bits2ld(a), bits2ld(b)));
}
static u128 foldOp(u8 op, u8 aux, unsigned w, unsigned wa, u128 a, u128 b, u64 k) {
  u128 m = maskw128(w);
  switch (op) {
    case EAdd: return (a + b) & m; case ESub: return (a - b) & m; case EMul: return (a * b) & m;
    case EUDiv: return b == 0 ? m : a / b; case EURem: return b == 0 ? a : a % b;
    case ESDiv: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case ESRem: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case EAnd: return a & b; case EOr: return a | b; case EXor: return a ^ b;
    case EShl: return b >= w ? 0 : (a << (unsigned)b) & m; case ELShr: return b >= w ? 0 : a >> (unsigned)b;
    case EAShr: { i128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case EEq: return a == b; case EUlt: return a < b; case ESlt: return sext128(a, wa) < sext128(b, wa);
    case ENot: return (~a) & 1; case EZExt: return a; case ESExt: return (u128)sext128(a, wa) & m;
    case EExtract: return (a >> (unsigned)k) & m;
    case EFAdd: case EFSub: case EFMul: case EFDiv: case EFRem: return fpBin(op, w, a, b);
    case EFCmp: return wa == 64 ? fcmpT(aux, bits2d((u64)a), bits2d((u64)b)) : wa == 32 ? fcmpT(aux, bits2f((u32)a), bits2f((u32)b)) : fcmpT(aux, bits2ld(a), bits2ld(b));
    case ESI2F: { i128 s = sext128(a, wa); return w == 64 ? (u128)d2bits((double)s) : w == 32 ? (u128)f2bits((float)s) : ld2bits((long double)s); }
    case EUI2F: return w == 64 ? (u128)d2bits((double)a) : w == 32 ? (u128)f2bits((float)a) : ld2bits((long double)a);
    case EF2SI: { long double d = fpGet(a, wa); if (d != d) return 0; if (d >= 1.8e19L || d <= -1.8e19L) return 0; return (u128)(i128)d & m; }
    case EF2UI: { long double d = fpGet(a, wa); if (d != d || d <= -1 || d >= 1.9e19L) return 0; return (u128)d & m; }
    case EFExt: case EFTrunc: return fpPut(fpGet(a, wa), w) & m;
    case EFNeg: return a ^ ((u128)1 << (w - 1)); case EFAbs: return a & ~((u128)1 << (w - 1)) & m;
    case EFSqrt: return w == 64 ? (u128)d2bits(sqrt(bits2d((u64)a))) : w == 32 ? (u128)f2bits(sqrtf(bits2f((u32)a))) : ld2bits(sqrtl(bits2ld(a)));
  }
  die("foldOp");
}

// ---------------------------------------------------------------- builders
static E mkBin(u8 op, E a, E b);
static E mkIte(E c, E t, E e);
static E mkExtract(E a, unsigned lo, unsigned w);
static E mkConcat(E h, E l);
static E raw(u8 op, unsigned w, E a, E b = nullptr, E c = nullptr, u64 k = 0, u8 aux = 0) { return g_tab.get(op, aux, w, k, 0, a, b, c); }

static E mkNot(E a) {
  if (isC(a)) return mkC(!a->k, 1);
  if (a->op == ENot) return a->a;
  return raw(ENot, 1, a);
}
static u128 maxVal(E x, int d);
static E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == EAdd && isC(a->b) && cval(a->b) <= (maskw128(a->w) >> 1) && w <= 64 && maxVal(a->a, 0) <= maskw128(a->w) - cval(a->b)) return mkBin(EAdd, mkZExt(a->a, w), mkC128(cval(a->b), w)); // cannot carry
  if (isC(a)) return mkC128(cval(a), w);
  if (a->op == EZExt) return mkZExt(a->a, w);
  if (a->op == EIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return raw(EZExt, w, a);
}
static E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC128((u128)sext128(cval(a), a->w), w);
  if (a->op == ESExt) return mkSExt(a->a, w);
  if (a->op == EZExt) return mkZExt(a->a, w);
  if ((a->op == EAdd || a->op == EConcat || a->op == EOr || a->op == EAnd) && maxVal(a, 0) <= (maskw128(a->w) >> 1)) return mkZExt(a, w); // never negative
  if (a->op == EIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return raw(ESExt, w, a);
}
static E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return mkC128(cval(a) >> lo, w);
  switch (a->op) {
    case EExtract: return mkExtract(a->a, lo + (unsigned)a->k, w);
    case EConcat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case EZExt: {
      unsigned aw = a->a->w;
      if (lo >= aw) return mkC(0, w);
      if (lo + w <= aw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, aw - lo), w);
    }
    case ESExt: {
      unsigned aw = a->a->w;
      if (lo + w <= aw) return mkExtract(a->a, lo, w);
      if (lo < aw) return mkSExt(mkExtract(a->a, lo, aw - lo), w);
      return mkSExt(mkExtract(a->a, aw - 1, 1), w);
    }
    case EIte:
      if ((isC(a->b) || isC(a->c)) ) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    case EAnd: case EOr: case EXor:
      if (isC(a->b) || a->a->op == EZExt || a->b->op == EZExt || a->a->op == EConcat || a->b->op == EConcat)
        return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      break;
    case EAdd: case ESub: case EMul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
  }
  return raw(EExtract, w, a, nullptr, nullptr, lo);
}
static E mkConcat(E h, E l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l) && w <= 128) return mkC128((cval(h) << l->w) | cval(l), w);
  if (isVal(h, 0)) return mkZExt(l, w);
  if (h->op == EExtract && l->op == EExtract && h->a == l->a && h->k == l->k + l->w) return mkExtract(h->a, (unsigned)l->k, w);
  if (h->op == EExtract && h->k == l->w && h->a->op == l->op && (l->op == EAdd || l->op == ESub || l->op == EMul) && mkExtract(h->a, 0, l->w) == l) return mkExtract(h->a, 0, w); // the low part was distributed
  if (h->op == EExtract && l->op == EConcat && l->a->op == EExtract && h->a == l->a->a && h->k == l->a->k + l->a->w)
    return mkConcat(mkExtract(h->a, (unsigned)l->a->k, h->w + l->a->w), l->b);
  if (isC(h) && l->op == EConcat && isC(l->a)) return mkConcat(mkC128((cval(h) << l->a->w) | cval(l->a), h->w + l->a->w), l->b);
  if (h->op == EConcat) return mkConcat(h->a, mkConcat(h->b, l)); // right nested
  if (h->op == EZExt) return mkConcat(mkC(0, h->w - h->a->w), raw(EConcat, h->a->w + l->w, h->a, l));
  return raw(EConcat, w, h, l);
}
static bool complementary(E a, E b) { return (a->op == ENot && a->a == b) || (b->op == ENot && b->a == a); }
static E mkEq(E a, E b);
static E mkUlt(E a, E b) {
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return mkC(cval(a) < cval(b), 1);
  if (isVal(b, 0)) return mkFalse();
  if (isVal(b, 1)) return mkEq(a, mkC(0, a->w));
  if (isVal(a, 0)) return mkNot(mkEq(b, mkC(0, b->w)));
  if (isOnes(a)) return mkFalse();
  if (a->w == 1) { return mkBin(EAnd, mkNot(a), b); }
  if (a->op == EZExt && b->op == EZExt) {
    unsigned w = std::max(a->a->w, b->a->w);
    if (w < a->w) return mkUlt(mkZExt(a->a, w), mkZExt(b->a, w));
  }
  if (a->op == EZExt && isC(b)) { unsigned w = a->a->w; if (cval(b) > maskw128(w)) return mkTrue(); return mkUlt(a->a, mkC128(cval(b), w)); }
  if (b->op == EZExt && isC(a)) { unsigned w = b->a->w; if (cval(a) >= maskw128(w)) return mkFalse(); return mkUlt(mkC128(cval(a), w), b->a); }
  if (a->op == EIte && isC(b) && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
  if (b->op == EIte && isC(a) && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
  return raw(EUlt, 1, a, b);
}
static E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return mkC(sext128(cval(a), a->w) < sext128(cval(b), b->w), 1);
  if (a->w == 1) return mkBin(EAnd, a, mkNot(b));
  auto nonneg = [](E x) { return (x->op == EZExt) || (isC(x) && !((cval(x) >> (x->w - 1)) & 1)); };
  if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
  auto neg = [](E x) { return isC(x) && ((cval(x) >> (x->w - 1)) & 1); };
  if (a->op == EZExt && neg(b)) return mkFalse();
  if (neg(a) && b->op == EZExt) return mkTrue();
  auto sx = [](E x, E c, bool left) -> E { // x is sext, c const
    unsigned w = x->a->w; i128 v = sext128(cval(c), c->w), lo = -((i128)1 << (w - 1)), hi = ((i128)1 << (w - 1)) - 1;
    if (left) { if (v > hi) return mkTrue(); if (v <= lo) return mkFalse(); return mkSlt(x->a, mkC128((u128)v, w)); }
    if (v >= hi) return mkFalse(); if (v < lo) return mkTrue(); return mkSlt(mkC128((u128)v, w), x->a);
  };
  if (a->op == ESExt && isC(b)) return sx(a, b, true);
  if (b->op == ESExt && isC(a)) return sx(b, a, false);
  if (a->op == ESExt && b->op == ESExt && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (a->op == EIte && isC(b) && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
  if (b->op == EIte && isC(a) && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
  return raw(ESlt, 1, a, b);
}
static E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return mkC(cval(a) == cval(b), 1);
  if (isC(b)) {
    u128 kb = cval(b);
    if (a->w == 1) return kb ? a : mkNot(a);
    switch (a->op) {
      case EZExt: if (kb > maskw128(a->a->w)) return mkFalse(); return mkEq(a->a, mkC128(kb, a->a->w));
      case ESExt: { u128 t = kb & maskw128(a->a->w); if (((u128)sext128(t, a->a->w) & maskw128(a->w)) != kb) return mkFalse(); return mkEq(a->a, mkC128(t, a->a->w)); }
      case EConcat: { unsigned lw = a->b->w; return mkBin(EAnd, mkEq(a->a, mkC128(kb >> lw, a->a->w)), mkEq(a->b, mkC128(kb, lw))); }
      case EAdd: if (isC(a->b)) return mkEq(a->a, mkC128(kb - cval(a->b), a->w)); break;
      case EXor: if (isC(a->b)) return mkEq(a->a, mkC128(kb ^ cval(a->b), a->w)); if (kb == 0) return mkEq(a->a, a->b); break;
      case ESub: if (kb == 0) return mkEq(a->a, a->b); if (isC(a->a)) return mkEq(a->b, mkC128(cval(a->a) - kb, a->w)); break;
      case EOr: if (kb == 0) return mkBin(EAnd, mkEq(a->a, b), mkEq(a->b, b)); if (isC(a->b) && (cval(a->b) & ~kb)) return mkFalse(); break;
      case EAnd: if (isC(a->b)) { if (kb & ~cval(a->b)) return mkFalse();
          u128 m = cval(a->b); if (m && (m & (m - 1)) == 0) { unsigned bit = 0; while (!((m >> bit) & 1)) bit++; E x = mkExtract(a->a, bit, 1); return kb ? x : mkNot(x); } } break;
      case EIte: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); break;
    }
  } else {
    if (a->w == 1) return mkNot(mkBin(EXor, a, b));
    if (a->op == EZExt && b->op == EZExt) { unsigned w = std::max(a->a->w, b->a->w); if (w < a->w) return mkEq(mkZExt(a->a, w), mkZExt(b->a, w)); }
    if (a->op == ESExt && b->op == ESExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == EConcat && b->op == EConcat && a->b->w == b->b->w) return mkBin(EAnd, mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == EIte && (a->b == b || a->c == b)) return a->b == b ? mkBin(EOr, a->a, mkEq(a->c, b)) : mkBin(EOr, mkNot(a->a), mkEq(a->b, b));
    if (b->op == EIte && (b->b == a || b->c == a)) return b->b == a ? mkBin(EOr, b->a, mkEq(b->c, a)) : mkBin(EOr, mkNot(b->a), mkEq(b->b, a));
    if (a->op == EAdd && b->op == EAdd && isC(a->b) && isC(b->b)) { if (a->a == b->a) return mkC(a->b == b->b, 1); }
    if (a->op == EAdd && a->a == b && isC(a->b)) return mkFalse();
    if (b->op == EAdd && b->a == a && isC(b->b)) return mkFalse();
    if (a->id > b->id) std::swap(a, b);
  }
  return raw(EEq, 1, a, b);
}
static E mkIte(E c, E t, E e) {
  if (isC(c)) return c->k ? t : e;
  if (t == e) return t;
  if (c->op == ENot) return mkIte(c->a, e, t);
  if (t->w == 1) {
    if (isC(t)) return t->k ? mkBin(EOr, c, e) : mkBin(EAnd, mkNot(c), e);
    if (isC(e)) return e->k ? mkBin(EOr, mkNot(c), t) : mkBin(EAnd, c, t);
    if (t == c) return mkBin(EOr, c, e);
    if (e == c) return mkBin(EAnd, c, t);
  }
  if (t->op == EIte && t->a == c) return mkIte(c, t->b, e);
  if (e->op == EIte && e->a == c) return mkIte(c, t, e->c);
  if (e->op == EIte && e->b == t) return mkIte(mkBin(EOr, c, e->a), t, e->c);
  if (t->op == EIte && t->c == e) return mkIte(mkBin(EAnd, c, t->a), t->b, e);
  if (t->op == EZExt && e->op == EZExt && t->a->w == e->a->w) return mkZExt(mkIte(c, t->a, e->a), t->w);
  return raw(EIte, t->w, c, t, e);
}
static bool isCommut(u8 op) { return op == EAdd || op == EMul || op == EAnd || op == EOr || op == EXor; }
static unsigned tzConst(E l) { if (!isC(l)) return 0; u128 v = cval(l); if (v == 0) return l->w; unsigned n = 0; while (!((v >> n) & 1)) n++; return n; }
// number of low bits known zero
static unsigned lowZeros(E x, int d = 0) {
  if (isC(x)) return tzConst(x);
  if (d > 6) return 0;
  switch (x->op) {
    case EConcat: { unsigned l = lowZeros(x->b, d + 1); return l == x->b->w ? l + lowZeros(x->a, d + 1) : l; }
    case EZExt: { unsigned l = lowZeros(x->a, d + 1); return l == x->a->w ? x->w : l; }
    case ESExt: return lowZeros(x->a, d + 1);
    case EAdd: case ESub: case EOr: case EXor: case EIte: return x->op == EIte ? std::min(lowZeros(x->b, d + 1), lowZeros(x->c, d + 1)) : std::min(lowZeros(x->a, d + 1), lowZeros(x->b, d + 1));
    case EMul: return std::min<unsigned>(x->w, lowZeros(x->a, d + 1) + lowZeros(x->b, d + 1));
    case EAnd: return std::max(lowZeros(x->a, d + 1), lowZeros(x->b, d + 1));
  }
  return 0;
}
// unsigned upper bound
static u128 maxVal(E x, int d) {
  if (isC(x)) return cval(x);
  u128 m = maskw128(x->w);
  if (d > 8) return m;
  switch (x->op) {
    case EZExt: return maxVal(x->a, d + 1);
    case EConcat: return (maxVal(x->a, d + 1) << x->b->w) | maxVal(x->b, d + 1);
    case EAnd: return std::min(maxVal(x->a, d + 1), maxVal(x->b, d + 1));
    case EIte: return std::max(maxVal(x->b, d + 1), maxVal(x->c, d + 1));
    case EAdd: { u128 p = maxVal(x->a, d + 1), q = maxVal(x->b, d + 1); return (p > m - q) ? m : p + q; }
    case EMul: { u128 p = maxVal(x->a, d + 1), q = maxVal(x->b, d + 1); if (p == 0 || q == 0) return 0; if (x->w <= 64 && p * q <= m) return p * q; return m; }
    case EURem: if (isC(x->b) && cval(x->b)) return std::min(maxVal(x->a, d + 1), cval(x->b) - 1); return m;
    case EUDiv: if (isC(x->b) && cval(x->b)) return maxVal(x->a, d + 1) / cval(x->b); return m;
    case EOr: case EXor: { u128 v = maxVal(x->a, d + 1) | maxVal(x->b, d + 1); u128 r = 1; while (r - 1 < v && r) r <<= 1; return std::min(m, r - 1); }
    case ELShr: return maxVal(x->a, d + 1);
    case EExtract: if (x->k == 0) return std::min(m, maxVal(x->a, d + 1)); return m;
  }
  return m;
}
static E mkBin(u8 op, E a, E b) {
  unsigned w = a->w;
  if (op == EEq) return mkEq(a, b);
  if (op == EUlt) return mkUlt(a, b);
  if (op == ESlt) return mkSlt(a, b);
  if (isC(a) && isC(b)) return mkC128(foldOp(op, 0, w, w, cval(a), cval(b), 0), w);
  if (isCommut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (op <= EAShr) { // arithmetic over constant-armed ite
    if (isC(b) && a->op == EIte && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (isC(a) && b->op == EIte && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  }
  switch (op) {
    case EAdd:
      if (isVal(b, 0)) return a;
      if (w == 1) return mkBin(EXor, a, b);
      if (isC(b) && (cval(b) >> (w - 1))) { // remove a constant prefix: (k ++ x) - c
        E x = a->op == EZExt ? a->a : a;
        if (x->op == EConcat && isC(x->a)) { u128 k = cval(x->a) << x->b->w; return mkBin(EAdd, mkZExt(x->b, w), mkC128(cval(b) + k, w)); }
      }
      if (isC(b) && a->op == EAdd && isC(a->b)) return mkBin(EAdd, a->a, mkC128(cval(a->b) + cval(b), w));
      if (isC(b) && a->op == ESub && isC(a->a)) return mkBin(ESub, mkC128(cval(a->a) + cval(b), w), a->b);
      if (b->op == ESub && b->b == a) return b->a;
      if (a->op == ESub && a->b == b) return a->a;
      if (!isC(b) && a->op == EAdd && isC(a->b)) return mkBin(EAdd, mkBin(EAdd, a->a, b), a->b);
      if (!isC(b) && b->op == EAdd && isC(b->b)) return mkBin(EAdd, mkBin(EAdd, a, b->a), b->b);
      if (!isC(b)) { // disjoint bits: concat
        unsigned za = lowZeros(a), zb = lowZeros(b);
        if (za && maxVal(b, 0) <= maskw128(za)) return mkBin(EOr, a, b);
        if (zb && maxVal(a, 0) <= maskw128(zb)) return mkBin(EOr, a, b);
        for (int i = 0; i < 2; i++) { E p = i ? b : a, q = i ? a : b, x = p->op == EZExt ? p->a : p; if (x->op == EConcat && isC(x->a) && x->b->w < w) return mkBin(EAdd, mkBin(EAdd, mkZExt(x->b, w), q), mkC128(cval(x->a) << x->b->w, w)); }
      }
      break;
    case ESub:
      if (a == b) return mkC(0, w);
      if (isC(b)) return mkBin(EAdd, a, mkC128(-cval(b), w));
      if (w == 1) return mkBin(EXor, a, b);
      if (a->op == EAdd && a->a == b) return a->b;
      if (a->op == EAdd && a->b == b) return a->a;
      if (a->op == EAdd && isC(a->b) && b->op == EAdd && isC(b->b)) return mkBin(EAdd, mkBin(ESub, a->a, b->a), mkC128(cval(a->b) - cval(b->b), w));
      if (a->op == EAdd && isC(a->b)) return mkBin(EAdd, mkBin(ESub, a->a, b), a->b);
      if (b->op == EAdd && isC(b->b)) return mkBin(EAdd, mkBin(ESub, a, b->a), mkC128(-cval(b->b), w));
      break;
    case EMul:
      if (isC(b)) {
        u128 v = cval(b); if (v == 0) return b; if (v == 1) return a;
        if ((v & (v - 1)) == 0) { unsigned s = tzConst(b); return mkBin(EShl, a, mkC(s, w)); }
      }
      if (w == 1) return mkBin(EAnd, a, b);
      break;
    case EUDiv:
      if (isC(b)) { u128 v = cval(b); if (v == 1) return a; if (v && (v & (v - 1)) == 0) return mkBin(ELShr, a, mkC(tzConst(b), w)); }
      if (isC(b) && cval(b) && a->op == EZExt && a->a->w < w) { unsigned nw = a->a->w; if (cval(b) > maskw128(nw)) return mkC(0, w); return mkZExt(mkBin(EUDiv, a->a, mkC128(cval(b), nw)), w); }
      break;
    case EURem:
      if (isC(b)) { u128 v = cval(b); if (v == 1) return mkC(0, w); if (v && (v & (v - 1)) == 0) return mkBin(EAnd, a, mkC128(v - 1, w)); }
      if (isC(b) && cval(b) && a->op == EZExt && a->a->w < w) { unsigned nw = a->a->w; if (cval(b) > maskw128(nw)) return a; return mkZExt(mkBin(EURem, a->a, mkC128(cval(b), nw)), w); }
      break;
    case EAnd:
      if (a == b) return a;
      if (isVal(b, 0)) return b;
      if (isOnes(b)) return a;
      if (w == 1 && complementary(a, b)) return mkFalse();
      if (w == 1) {
        if (a->op == EAnd && (a->a == b || a->b == b)) return a;
        if (b->op == EAnd && (b->a == a || b->b == a)) return b;
        if (a->op == EOr && (a->a == b || a->b == b)) return b;
        if (b->op == EOr && (b->a == a || b->b == a)) return a;
        // x==c1 && x==c2
        if (a->op == EEq && b->op == EEq && a->a == b->a && isC(a->b) && isC(b->b) && a->b != b->b) return mkFalse();
      }
      if (isC(b)) {
        u128 v = cval(b);
        if (a->op == EAnd && isC(a->b)) return mkBin(EAnd, a->a, mkC128(cval(a->b) & v, w));
        if (((v + 1) & v) == 0) { unsigned n = 0; while ((v >> n) & 1) n++; return mkZExt(mkExtract(a, 0, n), w); }
        if (a->op == EZExt) return mkZExt(mkBin(EAnd, a->a, mkC128(v, a->a->w)), w);
        if (a->op == EConcat) return mkConcat(mkBin(EAnd, a->a, mkC128(v >> a->b->w, a->a->w)), mkBin(EAnd, a->b, mkC128(v, a->b->w)));
        unsigned tz = tzConst(b);
        if (tz) return mkConcat(mkBin(EAnd, mkExtract(a, tz, w - tz), mkC128(v >> tz, w - tz)), mkC(0, tz));
      } else if (a->op == EZExt && b->op == EZExt && a->a->w == b->a->w) return mkZExt(mkBin(EAnd, a->a, b->a), w);
      break;
    case EOr:
      if (a == b) return a;
      if (isVal(b, 0)) return a;
      if (isOnes(b)) return b;
      if (w == 1 && complementary(a, b)) return mkTrue();
      if (w == 1) {
        if (a->op == EOr && (a->a == b || a->b == b)) return a;
        if (b->op == EOr && (b->a == a || b->b == a)) return b;
        if (a->op == EAnd && (a->a == b || a->b == b)) return b;
        if (b->op == EAnd && (b->a == a || b->b == a)) return a;
        if (a->op == EAnd && b->op == ENot && (a->a == b->a || a->b == b->a)) return mkBin(EOr, b, a->a == b->a ? a->b : a->a);
        if (b->op == EAnd && a->op == ENot && (b->a == a->a || b->b == a->a)) return mkBin(EOr, a, b->a == a->a ? b->b : b->a);
      }
      if (isC(b) && a->op == EOr && isC(a->b)) return mkBin(EOr, a->a, mkC128(cval(a->b) | cval(b), w));
      if (a->op == EConcat && b->op == EConcat && a->b->w == b->b->w) return mkConcat(mkBin(EOr, a->a, b->a), mkBin(EOr, a->b, b->b));
      if (a->op == EConcat && (isC(b) || b->op == EZExt || b->op == EConcat)) {
        unsigned lw = a->b->w; return mkConcat(mkBin(EOr, a->a, mkExtract(b, lw, w - lw)), mkBin(EOr, a->b, mkExtract(b, 0, lw)));
      }
      if (b->op == EConcat && a->op == EZExt) {
        unsigned lw = b->b->w; return mkConcat(mkBin(EOr, mkExtract(a, lw, w - lw), b->a), mkBin(EOr, mkExtract(a, 0, lw), b->b));
      }
      if (a->op == EZExt && isC(b)) { unsigned lw = a->a->w; return mkConcat(mkExtract(b, lw, w - lw), mkBin(EOr, a->a, mkExtract(b, 0, lw))); }
      if (a->op == EZExt && b->op == EZExt && a->a->w == b->a->w) return mkZExt(mkBin(EOr, a->a, b->a), w);
      break;
    case EXor:
      if (a == b) return mkC(0, w);
      if (isVal(b, 0)) return a;
      if (w == 1 && isVal(b, 1)) return mkNot(a);
      if (w == 1 && a->op == ENot && b->op == ENot) return mkBin(EXor, a->a, b->a);
      if (w == 1 && (a->op == ENot || b->op == ENot)) return mkNot(mkBin(EXor, a->op == ENot ? a->a : a, b->op == ENot ? b->a : b));
      if (isC(b) && a->op == EXor && isC(a->b)) return mkBin(EXor, a->a, mkC128(cval(a->b) ^ cval(b), w));
      if (isC(b) && a->op == EZExt && cval(b) <= maskw128(a->a->w)) return mkZExt(mkBin(EXor, a->a, mkC128(cval(b), a->a->w)), w);
      if (a->op == EZExt && b->op == EZExt && a->a->w == b->a->w) return mkZExt(mkBin(EXor, a->a, b->a), w);
      break;
    case EShl:
      if (isVal(b, 0)) return a;
      if (isC(b)) { if (cval(b) >= w) return mkC(0, w); unsigned s = (unsigned)b->k; return mkConcat(mkExtract(a, 0, w - s), mkC(0, s)); }
      break;
    case ELShr:
      if (isVal(b, 0)) return a;
      if (isC(b)) { if (cval(b) >= w) return mkC(0, w); unsigned s = (unsigned)b->k; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case EAShr:
      if (isVal(b, 0)) return a;
      if (isC(b)) { unsigned s = cval(b) >= w ? w - 1 : (unsigned)b->k; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case EEq: return mkEq(a, b);
    case EUlt: return mkUlt(a, b);
    case ESlt: return mkSlt(a, b);
  }
  return raw(op, w, a, b);
}
static E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static E mkAnd(E a, E b) { return mkBin(EAnd, a, b); }
static E mkOr(E a, E b) { return mkBin(EOr, a, b); }
// An x87 value that is exactly an integer of at most 64 bits (every such integer is representable), as a 66-bit signed integer.
static E x87Int(E x) {
  if (x->op == ESI2F && x->a->w <= 64) return mkSExt(x->a, 66);
  if (x->op == EUI2F && x->a->w <= 64) return mkZExt(x->a, 66);
  if (isC(x)) { long double d = bits2ld(cval(x)); if (d == d && d >= -18446744073709551616.0L && d <= 18446744073709551616.0L && d == truncl(d)) return mkC128((u128)(i128)d & maskw128(66), 66); }
  return nullptr;
}
static E mkFP(u8 op, unsigned w, E a, E b, u8 aux = 0) {
  if (isC(a) && (!b || isC(b))) return mkC128(foldOp(op, aux, w, a->w, cval(a), b ? cval(b) : 0, 0), w);
  if (op == EFCmp && a->w == 80) {
    E x = x87Int(a), y = x87Int(b);
    if (x && y) {
      E r; switch (aux & 7) { case 0: r = mkFalse(); break; case 1: r = mkEq(x, y); break; case 2: r = mkBin(ESlt, y, x); break; case 3: r = mkNot(mkBin(ESlt, x, y)); break; case 4: r = mkBin(ESlt, x, y); break; case 5: r = mkNot(mkBin(ESlt, y, x)); break; case 6: r = mkNot(mkEq(x, y)); break; default: r = mkTrue(); }
      return r;
    }
  }
  if ((op == EF2SI && a->op == ESI2F && a->w == 80 && a->a->w == w) || (op == EF2UI && a->op == EUI2F && a->w == 80 && a->a->w == w)) return a->a;
  return raw(op, w, a, b, nullptr, 0, aux);
}

// ---------------------------------------------------------------- evaluation
struct Model { std::vector<u64> v; u64 get(int i) const { return (size_t)i < v.size() ? v[i] : 0; } void set(int i, u64 x) { if ((size_t)i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };
static std::vector<u32> ev_stamp; static std::vector<u128> ev_val; static u32 ev_cur = 0;
static u128 evalRec(E e, const Model &m) {
  if (e->op == EConst) return cval(e);
  if (e->op == EVar) return m.get((int)e->k) & maskw128(e->w);
  if (ev_stamp[e->id] == ev_cur) return ev_val[e->id];
  u128 r;
  if (e->op == EIte) r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
  else if (e->op == EConcat) r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m);
  else r = foldOp(e->op, e->aux, e->w, e->a->w, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0, e->k);
  ev_stamp[e->id] = ev_cur; ev_val[e->id] = r;
  return r;
}
static u128 evalE(E e, const Model &m) {
  if (isC(e)) return cval(e);
  if (ev_stamp.size() < g_numExprs) { ev_stamp.resize(g_numExprs * 2, 0); ev_val.resize(g_numExprs * 2); }
  if (++ev_cur == 0) { std::fill(ev_stamp.begin(), ev_stamp.end(), 0); ev_cur = 1; }
  return evalRec(e, m);
}

// ---------------------------------------------------------------- exact tables over one 8-bit variable
static u64 g_vtCount = 0;
static bool fdable(E e) { return e->var1 >= 0 && g_vars[e->var1].w <= 8; }
static const u64 *vtab(E e) { // requires fdable; nullptr if some subterm is wider than 64
  if (e->vt) return e->vt;
  if (e->w > 64) return nullptr;
  const u64 *ta = nullptr, *tb = nullptr, *tc = nullptr; static thread_local int depth = 0;
  auto sub = [&](E x, const u64 *&t) { if (!x || isC(x)) return true; if (x->w > 64) return false; depth++; t = vtab(x); depth--; return t != nullptr; };
  if (!sub(e->a, ta) || !sub(e->b, tb) || !sub(e->c, tc)) return nullptr;
  for (E x : {e->a, e->b, e->c}) if (x && x->w > 64) return nullptr;
  u64 *t = (u64 *)malloc(256 * 8); g_vtCount++;
  for (int i = 0; i < 256; i++) {
    auto g = [&](E x, const u64 *tx) { return !x ? 0 : tx ? tx[i] : x->k; };
    u64 r;
    if (e->op == EVar) r = i & maskw(e->w);
    else if (e->op == EIte) r = g(e->a, ta) ? g(e->b, tb) : g(e->c, tc);
    else if (e->op == EConcat) r = (g(e->a, ta) << e->b->w) | g(e->b, tb);
    else r = (u64)foldOp(e->op, e->aux, e->w, e->a->w, g(e->a, ta), g(e->b, tb), e->k);
    t[i] = r;
  }
  e->vt = t; return t;
}

// ---------------------------------------------------------------- support sets
static const std::vector<int> *support(E e) {
  static const std::vector<int> empty;
  if (e->var1 == -1) return &empty;
  if (e->sup) return e->sup;
  auto *s = new std::vector<int>();
  if (e->var1 >= 0) s->push_back(e->var1);
  else { for (E x : {e->a, e->b, e->c}) if (x && x->var1 != -1) { auto *q = support(x); std::vector<int> t; std::set_union(s->begin(), s->end(), q->begin(), q->end(), std::back_inserter(t)); s->swap(t); } }
  e->sup = s; return s;
}
static std::string showE(E e, int d = 0) {
  char buf[64];
  if (isC(e)) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long)e->k, e->w); return buf; }
  if (e->op == EVar) return g_vars[e->k].name;
  if (d > 12) return "...";
  std::string s = std::string("(") + opname[e->op];
  if (e->op == EExtract) s += "[" + std::to_string(e->k + e->w - 1) + ":" + std::to_string(e->k) + "]";
  if (e->op == EZExt || e->op == ESExt) s += ":" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + showE(x, d + 1);
  return s + ")";
}
