// C14: JSON comparison operators against an independent definition of the documented order.
#include "vh.h"
#include "fly/types/json/json.hpp"
#include <cfloat>
#include <cmath>
using fly::Json;
struct Val { int kind = 0; std::string s; bool b = false; int64_t i = 0; uint64_t u = 0; long double f = 0; std::vector<Val> kids; std::vector<std::string> keys; };
enum { NUL, STR, OBJ, ARR, BOO, INT, UIN, FLO };
static long double real() { // any double except NaN, widened; or one of the extreme long doubles
  if (fs_param("floats", 1) == 0) { static const long double k[] = {0.0L, -0.0L, 1.5L, 1.0L + LDBL_EPSILON, 1.0L, 18446744073709551615.0L, -1e300L, INFINITY, -INFINITY, LDBL_EPSILON}; return k[fs_choose(10, "real")]; }
  uint64_t bits = fs_param("floats", 1) == 2 ? (uint64_t)fs_u16("real") << 48 | fs_param("low", 0) : fs_u64("real"); double d; memcpy(&d, &bits, 8); fs_assume((bits & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); return d;
}
static Val make(int depth, unsigned kinds) {
  Val v; int k[8], n = 0; for (int i = 0; i < 8; i++) if (kinds >> i & 1) k[n++] = i;
  v.kind = n == 1 ? k[0] : k[fs_choose((unsigned)n, "kind")];
  unsigned inner = (unsigned)fs_param("inner", 0x62);
  switch (v.kind) {
    case STR: { unsigned len = fs_choose(3, "len"); for (unsigned i = 0; i < len; i++) { unsigned char c = fs_u8("c"); fs_assume(c >= 0x20 && c < 0x7f && c != '"' && c != '\\'); v.s += (char)c; } break; }
    case BOO: v.b = fs_bool("b"); break;
    case INT: v.i = (int64_t)fs_u64("i"); break;
    case UIN: v.u = fs_u64("u"); break;
    case FLO: v.f = real(); break;
    case ARR: { unsigned len = depth ? fs_choose(3, "len") : 0; for (unsigned i = 0; i < len; i++) v.kids.push_back(make(depth - 1, inner)); break; }
    case OBJ: { unsigned len = depth ? fs_choose(2, "len") : 0; if (len) { unsigned char c = fs_u8("key") & 7; v.keys.push_back(std::string(1, (char)('a' + c))); v.kids.push_back(make(depth - 1, inner)); } break; }
    default: break;
  }
  return v;
}
static Json build(const Val &v) {
  switch (v.kind) {
    case STR: return Json(v.s); case BOO: return Json(v.b); case INT: return Json(v.i); case UIN: return Json(v.u); case FLO: return Json(v.f);
    case ARR: { Json j = fly::json_array_type(); for (auto &k : v.kids) j.push_back(build(k)); return j; }
    case OBJ: { Json j = fly::json_object_type(); for (size_t i = 0; i < v.kids.size(); i++) j[v.keys[i]] = build(v.kids[i]); return j; }
    default: return Json();
  }
}
static bool number(int k) { return k >= INT; }
static __int128 whole(const Val &v) { return v.kind == INT ? (__int128)v.i : (__int128)v.u; }
static long double asReal(const Val &v) { return v.kind == INT ? (long double)v.i : v.kind == UIN ? (long double)v.u : v.f; }
static bool eq(const Val &a, const Val &b) {
  if (number(a.kind) && number(b.kind)) {
    if (a.kind == FLO || b.kind == FLO) { long double x = asReal(a), y = asReal(b); return x == y || fabsl(x - y) <= LDBL_EPSILON; }
    return whole(a) == whole(b);
  }
  if (a.kind != b.kind) return false;
  switch (a.kind) {
    case STR: { if (a.s.size() != b.s.size()) return false; for (size_t i = 0; i < a.s.size(); i++) if (a.s[i] != b.s[i]) return false; return true; }
    case BOO: return a.b == b.b;
    case ARR: case OBJ: if (a.kids.size() != b.kids.size()) return false; for (size_t i = 0; i < a.kids.size(); i++) { if (a.kind == OBJ && a.keys[i][0] != b.keys[i][0]) return false; if (!eq(a.kids[i], b.kids[i])) return false; } return true;
    default: return true;
  }
}
static bool lt(const Val &a, const Val &b) {
  if (number(a.kind) && number(b.kind)) { if (a.kind == FLO || b.kind == FLO) return asReal(a) < asReal(b); return whole(a) < whole(b); }
  if (a.kind != b.kind) return a.kind < b.kind;
  switch (a.kind) {
    case STR: { for (size_t i = 0; i < a.s.size() && i < b.s.size(); i++) if (a.s[i] != b.s[i]) return (unsigned char)a.s[i] < (unsigned char)b.s[i]; return a.s.size() < b.s.size(); }
    case BOO: return !a.b && b.b;
    case ARR: case OBJ:
      for (size_t i = 0; i < a.kids.size() && i < b.kids.size(); i++) {
        if (a.kind == OBJ && a.keys[i][0] != b.keys[i][0]) return a.keys[i][0] < b.keys[i][0];
        if (lt(a.kids[i], b.kids[i])) return true; if (lt(b.kids[i], a.kids[i])) return false;
      }
      return a.kids.size() < b.kids.size();
    default: return false;
  }
}
FS_ENTRY c14_pair() {
  int depth = (int)fs_param("depth", 0); Val x = make(depth, (unsigned)fs_param("a", 0xff)), y = make(depth, (unsigned)fs_param("b", 0xff)); Json a = build(x), b = build(y);
  bool e = a == b, l = a < b, g = a > b, le = a <= b, ge = a >= b;
  fs_assert(e == eq(x, y), "equality is as documented"); fs_assert(l == lt(x, y), "less-than is as documented");
  fs_assert((a != b) == !e, "!= is the negation of =="); fs_assert((b == a) == e, "equality is symmetric");
  fs_assert(le == (((uint64_t)e | (uint64_t)l) != 0), "<= is == or <"); fs_assert(g == !le, "> is the negation of <="); fs_assert(ge == (((uint64_t)e | (uint64_t)g) != 0), ">= is == or >");
  bool bl = b < a; fs_assert(!(l && bl), "less-than is asymmetric");
  fs_assert((((uint64_t)e | (uint64_t)l | (uint64_t)bl) != 0), "two values are equal or ordered");
  if (e) fs_reach("equal"); else fs_reach("different");
}
FS_ENTRY c14_self() { Val x = make((int)fs_param("depth", 1), (unsigned)fs_param("a", 0xff)); Json a = build(x), c = a; fs_assert(a == a && !(a != a) && !(a < a) && a <= a && a >= a && !(a > a), "a value is equal to itself"); fs_assert(a == c && !(a < c), "a copy is equal"); fs_reach("equal"); }
FS_ENTRY c14_order() { // three values: the order is transitive
  unsigned k = (unsigned)fs_param("a", 0x7f), k2 = (unsigned)fs_param("b", k), k3 = (unsigned)fs_param("c", k); Json a = build(make(0, k)), b = build(make(0, k2)), c = build(make(0, k3));
  if (a < b && b < c) { fs_assert(a < c, "less-than is transitive"); fs_reach("chain"); }
  if (a == b && b == c) { fs_assert(a == c, "equality of exact values is transitive"); fs_reach("same"); }
}
