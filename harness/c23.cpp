// C23: which format strings are accepted, and what becomes of literal text and fields.
#include "fmtspec.hpp"
#include "fly/types/string/format.hpp"
#include <array>
namespace mine { struct Plain { int v; }; struct Derived { int v; }; }
template <typename C> struct fly::string::Formatter<mine::Plain, C> { template <typename X> void format(const mine::Plain &p, X &x) { *x.out()++ = (C)('A' + p.v); } };
template <typename C> struct fly::string::Formatter<mine::Derived, C> : fly::string::Formatter<int, C> { template <typename X> void format(const mine::Derived &p, X &x) { fly::string::Formatter<int, C>::format(p.v, x); } };
using namespace fspec;
namespace {
enum Kind { Chr, Str, Ptr, Int, Flt, Boo, Usr, Der };
struct Arg { Kind k; bool neg; uint64_t v; std::string s; };
template <typename C> struct Spec {
  const S<C> &t; const std::vector<Arg> &args; size_t i = 0, next = 0; bool autos = false, manual = false, floats = false, huge = false; S<C> out; size_t fields = 0;
  Spec(const S<C> &x, const std::vector<Arg> &a) : t(x), args(a) {}
  bool at(char c) const { return i < t.size() && t[i] == (C)c; }
  bool eat(char c) { if (!at(c)) return false; i++; return true; }
  static bool dig(C c) { return ((uint64_t)(c >= (C)'0') & (uint64_t)(c <= (C)'9')) != 0; }
  static bool aligns(C c) { return ((uint64_t)(c == (C)'<') | (uint64_t)(c == (C)'>') | (uint64_t)(c == (C)'^')) != 0; }
  bool number(uint64_t &v) { if (i >= t.size() || !dig(t[i])) return false; v = 0; while (i < t.size() && dig(t[i])) v = v * 10 + (uint64_t)(t[i++] - (C)'0'); return true; }
  bool position(size_t &p) { uint64_t v; if (number(v)) { manual = true; p = v; } else { autos = true; p = next++; } return !(manual && autos) && p < args.size(); }
  bool value(bool &some, bool &nested, size_t &w) { // a number or a nested field naming an integer
    uint64_t v; some = nested = false; if (number(v)) { some = true; w = v; return true; }
    if (!eat('{')) return true;
    size_t p; if (!position(p) || args[p].k != Int || !eat('}')) return false;
    some = nested = true; w = args[p].neg ? 0 : args[p].v; return true;
  }
  bool field() {
    size_t p; if (!position(p)) return false;
    const Arg &a = args[p]; Field<C> f; bool wset = false, wnest = false, pset = false, pnest = false, loc = false, zero = false; size_t prec = ~(size_t)0; char type = 0;
    if (++fields > 64) return false;
    if (!eat(':')) { if (!eat('}')) return false; render(a, f, prec); return true; }
    if (a.k == Usr) { if (!eat('}')) return false; render(a, f, prec); return true; }
    if (i + 1 < t.size() && aligns(t[i + 1])) { C c = t[i++]; if (((uint64_t)(c == (C)'{') | (uint64_t)(c == (C)'}') | (uint64_t)((std::make_unsigned_t<C>)c >= 0x80)) != 0) return false; f.filled = true; f.fill = c; }
    if (i < t.size() && aligns(t[i])) { f.align = at('<') ? '<' : at('>') ? '>' : '^'; i++; }
    if (at('+') || at('-') || at(' ')) { f.sign = at('+') ? '+' : at('-') ? '-' : ' '; i++; }
    f.alt = eat('#'); zero = eat('0');
    if (!value(wset, wnest, f.w)) return false;
    if (eat('.')) { if (!value(pset, pnest, prec) || !pset) return false; }
    loc = eat('L');
    for (const char *q = "cspbBodxXaAeEfFgG"; *q; q++) if (at(*q)) { type = *q; i++; break; }
    if (!eat('}')) return false;
    static const char *ok[] = {"cbBodxX", "s", "p", "cbBodxX", "aAeEfFgG", "csbBodxX", "", "cbBodxX"};
    if (type && !strchr(ok[a.k], type)) return false;
    bool isnum = type ? strchr("bBodxXaAeEfFgG", type) != nullptr : a.k == Int || a.k == Flt || a.k == Der, decimal = type ? type == 'd' : a.k == Int || a.k == Der;
    if ((f.sign || (zero && !f.align)) && !isnum) return false;
    if (f.alt && (!isnum || decimal)) return false;
    if (wset && !wnest && f.w == 0) return false;
    if (pset && a.k != Str && a.k != Flt) return false;
    if (loc && a.k != Int && a.k != Flt && a.k != Boo && a.k != Der) return false;
    if (f.w > 40 || prec + 1 > 40) huge = true;
    f.type = type; f.zero = zero; render(a, f, prec); return true;
  }
  void render(const Arg &a, Field<C> &f, size_t prec) {
    if (huge || f.w > 40) return;
    switch (a.k) {
      case Flt: floats = true; return;
      case Usr: out += (C)('A' + a.v); return;
      case Str: { S<C> b = wide<C>(a.s).substr(0, prec); out += pad(f, b, '<', b.size()); return; }
      case Ptr: f.type = 'x'; f.alt = true; out += fspec::number(f, false, a.v); return;
      case Boo: if (!f.type || f.type == 's') { S<C> b = wide<C>(a.v ? "true" : "false"); out += pad(f, b, '<', b.size()); return; } break;
      case Chr: if (!f.type) f.type = 'c'; break;
      default: break;
    }
    out += f.type == 'c' ? (a.neg ? S<C>() : pad(f, S<C>(1, (C)a.v), '>', 1)) : fspec::number(f, a.neg, a.v);
  }
  bool text() {
    while (i < t.size()) {
      if (eat('{')) { if (eat('{')) out += (C)'{'; else if (!field()) return false; }
      else if (eat('}')) { if (!eat('}')) return false; out += (C)'}'; }
      else out += t[i++];
    }
    return true;
  }
};
template <size_t N, typename C, typename... A> void judge(const S<C> &t, const std::vector<Arg> &args, A const &...a) {
  C buf[N + 1]; for (size_t i = 0; i < N; i++) buf[i] = t[i]; buf[N] = 0;
  Spec<C> s(t, args); bool want = s.text();
  { fly::string::FormatString<C, A const &...> f(buf); fs_assert(f.context().has_error() == !want, "exactly the valid format strings are accepted"); }
  if (want) fs_reach("accepted"); else fs_reach("rejected");
  if (s.huge) return;
  S<C> got = fly::string::format(buf, a...); if (!s.floats) vh::observe(got);
  static const char *bad = "Ignored invalid formatter: "; size_t k = strlen(bad);
  if (!want) { S<C> b = wide<C>(bad); fs_assert(got.size() > k && got.substr(0, k) == b, "an invalid format string gives an error text"); return; }
  if (!s.floats) fs_assert(vh::same(got, s.out), "literal text is copied and fields are filled from the arguments they name");
}
template <size_t N, typename C> void with(const S<C> &t) {
  static int target; uintptr_t p = 0x7f00aabbccd1; (void)target; std::string ab = "ab"; S<C> sab = wide<C>(ab);
  switch (fs_param("args", 0)) {
    case 0: judge<N, C>(t, {{Int, false, 7, {}}}, 7); break;
    case 1: judge<N, C>(t, {{Str, false, 0, ab}, {Int, false, 3, {}}}, sab, 3u); break;
    case 2: judge<N, C>(t, {{Boo, false, 1, {}}, {Chr, false, 'c', {}}}, true, (C)'c'); break;
    case 3: judge<N, C>(t, {{Flt, false, 0, {}}, {Int, false, 2, {}}}, 1.5, 2); break;
    case 4: judge<N, C>(t, {{Ptr, false, p, {}}}, (const void *)p); break;
    case 5: judge<N, C>(t, {{Usr, false, 1, {}}, {Int, true, 300, {}}}, mine::Plain{1}, -300); break;
    case 6: judge<N, C>(t, {}); break;
    default: judge<N, C>(t, {{Int, false, 12, {}}, {Int, true, 4, {}}, {Str, false, 0, ab}}, 12ull, (short)-4, sab); break;
  }
}
template <typename C> void any(const S<C> &t) {
  switch (t.size()) {
#define K(n) case n: with<n, C>(t); break;
    K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12)
    default: fs_assert(false, "harness: no such length");
  }
}
const char *shapes[] = {"{?}", "{:?}", "{:??}", "{:???}", "{?:?}", "{:?>5?}", "{:{?}?}", "{:.?}", "{:5.?}", "{:.{?}}", "??{}", "{}??", "{?}{?}", "{0}{?}", "{}{:?}", "{:#??}", "{:0??}", "{:+?}", "{:L?}", "{:1?d?", "{{?}}", "{:{}.{}}", "{:{?", "{:.??}", "{:}?", "{:???", "{:{?}.{?}}", "{?:{?}}", "{::?}", "a?{}}}", "{:-?0?}", "{1:{0}?}" };
} // namespace
#define EACH(C, c) FS_ENTRY c23_shape_##c() { any<C>(wide<C>(vh::pattern(shapes[fs_param("form", 0)]))); } FS_ENTRY c23_units_##c() { any<C>(vh::units<C>((size_t)fs_param("n", 2), "u")); } \
  FS_ENTRY c23_tokens_##c() { any<C>(wide<C>((fs_param("in", 0) ? "{:" : "") + vh::alphabet((size_t)fs_param("n", 4), fs_param("in", 0) ? "<+#01.Lds{}" : "{}:01a", "t") + (fs_param("in", 0) ? "}" : ""))); }
EACH(char, char) EACH(char8_t, char8) EACH(char16_t, char16) EACH(char32_t, char32) EACH(wchar_t, wchar)
// at most 64 fields
FS_ENTRY c23_many() {
  std::string t, e = vh::pattern("{0?{0}"); bool more = fs_choose(2, "more"); for (int i = 0; i < (more ? 63 : 62); i++) t += "{0}"; t += e;
  if (more) judge<195, char>(t, {{Int, false, 7, {}}}, 7); else judge<192, char>(t, {{Int, false, 7, {}}}, 7);
}
