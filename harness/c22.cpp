// C22: formatting values.
#include "fmtspec.hpp"
#include "fly/types/string/format.hpp"
#include <limits>
namespace {
using namespace fspec;
constexpr size_t N = 32;
template <typename C> struct Text { C t[N]; S<C> tail; };
// the replacement field in front of literal text which fills the array
template <typename C> void write(const Field<C> &f, Text<C> &out) {
  S<C> s; auto put = [&](const char *p) { for (; *p; p++) s += (C)*p; };
  put("a{"); if (f.manual) put("0");
  bool any = f.align || f.sign || f.alt || f.zero || f.width.size() || f.precision.size() || f.type || f.nested;
  if (any) put(":");
  if (f.filled) s += f.fill;
  if (f.align) s += (C)f.align;
  if (f.sign) s += (C)f.sign;
  if (f.alt) put("#"); if (f.zero) put("0");
  if (f.nested) put(f.manual ? "{1}" : "{}"); else put(f.width.c_str());
  put(f.precision.c_str()); if (f.type) s += (C)f.type;
  put("}"); size_t n = s.size(); while (s.size() < N - 1) s += (C)'~';
  for (size_t i = 0; i < N - 1; i++) out.t[i] = s[i]; out.t[N - 1] = 0; out.tail = s.substr(n);
}
template <typename C, typename T> S<C> run(const Text<C> &x, const Field<C> &f, const T &v) { return f.nested ? fly::string::format(x.t, v, f.arg) : fly::string::format(x.t, v); }
template <typename C> void verdict(const Text<C> &x, const S<C> &got, const S<C> &want) { vh::observe(got); fs_assert(vh::same(got, (C)'a' + want + x.tail), "the text is the one the specification describes"); fs_reach("formatted"); }
// fill, alignment and width; the shape parameter picks which of them vary
template <typename C> Field<C> place(bool full) {
  Field<C> f; auto fill = [&] { unsigned char c = fs_u8("fill") & 0x7f; fs_assume(c != '{'); fs_assume(c != '}'); f.filled = true; f.fill = (C)c; };
  if (!full) { // a selection of combinations
    unsigned k = fs_choose(7, "place"); if (k == 1 || k == 2 || k == 4) { f.width = k == 1 ? "24" : "7"; f.w = k == 1 ? 24 : 7; } if (k == 3 || k == 5) { f.nested = true; f.arg = k == 3 ? 11 : -3; f.w = k == 3 ? 11 : 0; f.manual = k == 5; }
    f.align = "\0\0<>^^>"[k]; if (k == 2 || k == 4) fill(); if (k == 6) { f.width = "1"; f.w = 1; }
    return f;
  }
  unsigned a = fs_choose(4, "align"); f.align = "\0<>^"[a];
  if (a && fs_choose(2, "fill")) fill();
  switch (fs_choose(6, "width")) {
    case 0: break; case 1: f.width = "7"; f.w = 7; break;
    case 2: { f.nested = true; static const int w[] = {-3, 0, 4, 11}; f.arg = w[fs_choose(4, "arg")]; f.w = f.arg > 0 ? (size_t)f.arg : 0; break; }
    case 3: f.width = "1"; f.w = 1; break; case 4: f.width = "24"; f.w = 24; break; default: f.width = "7"; f.w = 7; f.manual = true; }
  return f;
}
template <typename T, typename C> void integer() {
  using U = std::make_unsigned_t<T>; Field<C> f = place<C>(fs_param("full", 0)); uint64_t types = fs_param("types", 0);
  f.type = "\0dbBoxX"[types == 0 ? fs_choose(7, "type") : types == 1 ? fs_choose(2, "type") : 1 + fs_choose(3, "type") * 2]; f.sign = "\0+- "[fs_choose(4, "sign")];
  if (f.type && f.type != 'd') f.alt = fs_bool("alt"); f.zero = fs_bool("zero"); f.alt = fs_concretize(f.alt); f.zero = fs_concretize(f.zero);
  U u = (U)((U)fs_param("base", 0) + fs_u8("v")); T v = (T)u; Text<C> x; write(f, x);
  bool neg = v < 0; U mag = neg ? (U)(0 - u) : u;
  verdict(x, run<C>(x, f, v), number(f, neg, (uint64_t)mag));
}
// integers and characters presented as a character, or characters as numbers
template <typename T, typename C> void character() {
  Field<C> f = place<C>(fs_param("full", 0)); constexpr bool isch = fly::StandardCharacter<T>; f.type = "\0cdxoB"[isch ? fs_choose(6, "type") : 1];
  if (f.type != 0 && f.type != 'c') { if (f.type != 'd') f.alt = fs_concretize(fs_bool("alt")); f.zero = fs_concretize(fs_bool("zero")); f.sign = "\0+"[fs_choose(2, "sign")]; }
  bool num = f.type && f.type != 'c'; std::make_unsigned_t<T> u;
  if (sizeof(T) == 1) u = (decltype(u))fs_u8("v"); else if (!num) { u = (decltype(u))(sizeof(T) == 2 ? fs_u16("v") : sizeof(T) == 4 ? fs_u32("v") : fs_u64("v")); }
  else { static const uint32_t b[] = {0, 0x7f, 0xff80, 0x10ff80, 0xffffff00}; u = (decltype(u))(b[fs_choose(5, "base")] + fs_u8("v")); }
  T v = (T)u; Text<C> x; write(f, x); S<C> want;
  if (num) { bool neg = v < 0; want = number(f, neg, (uint64_t)(neg ? (decltype(u))(0 - u) : u)); }
  else if (std::is_same_v<T, C> || (v >= 0 && (uint64_t)u <= (uint64_t)std::numeric_limits<C>::max())) want = pad(f, S<C>(1, (C)u), '>', 1); // a value which no character of the result can hold is dropped
  verdict(x, run<C>(x, f, v), want);
}
template <typename C> void boolean() {
  Field<C> f = place<C>(fs_param("full", 0)); bool v = fs_bool("v"); v = fs_concretize(v); f.type = "\0scdxBo"[fs_choose(7, "type")];
  bool num = f.type && f.type != 's' && f.type != 'c';
  if (num) { if (f.type != 'd') f.alt = fs_concretize(fs_bool("alt")); f.zero = fs_concretize(fs_bool("zero")); f.sign = "\0+- "[fs_choose(4, "sign")]; }
  Text<C> x; write(f, x); S<C> word = wide<C>(v ? "true" : "false");
  verdict(x, run<C>(x, f, v), num ? number(f, false, v) : f.type == 'c' ? pad(f, S<C>(1, (C)v), '>', 1) : pad(f, word, '<', word.size()));
}
template <typename V, typename C> void text(const V &value, const Field<C> &f, const S<C> &want) { Text<C> x; write(f, x); verdict(x, run<C>(x, f, value), want); }
template <typename C> void str() { // strings of the format's own type, any units
  Field<C> f = place<C>(fs_param("full", 0)); unsigned n = (unsigned)fs_param("n", 2); S<C> v = vh::units<C>(n, "u"); f.type = "\0s"[fs_choose(2, "type")];
  size_t keep = n; unsigned p = fs_choose(4, "precision"); if (p) { f.precision = std::string(".") + (char)('0' + p - 1); keep = p - 1 < n ? p - 1 : n; }
  S<C> want = pad(f, v.substr(0, keep), '<', keep);
  switch (fs_choose(3, "kind")) {
    case 0: text(v, f, want); break; case 1: text(std::basic_string_view<C>(v), f, want); break;
    default: for (C c : v) fs_assume(c != 0); text(v.c_str(), f, want); }
}
template <typename V, typename C> void other() { // strings of another type are converted; width and precision count the units given
  Field<C> f = place<C>(false); S<V> v; v += (V)'x'; std::vector<uint32_t> cps{'x'}; uint32_t cp = vh::codepoint("cp"); S<V> e = vh::spec_encode<V>(cp); size_t k = fs_concretize(e.size()); v += e;
  f.type = "\0s"[fs_choose(2, "type")]; size_t keep = 1 + k; unsigned p = fs_choose(3, "precision"); if (p) { keep = p; f.precision = p == 1 ? ".1" : ".2"; }
  S<C> body; body += (C)'x'; bool ok = keep == 1 || keep == 1 + k; if (keep == 1 + k) body += vh::spec_encode<C>(cp); if (!ok) body.clear(); // cut inside a codepoint: no text
  text(v, f, pad(f, body, '<', keep));
}
template <typename C> void pointer() {
  Field<C> f = place<C>(fs_param("full", 0)); f.type = "\0p"[fs_choose(2, "type")]; uint64_t b = fs_param("base", 0); uint64_t a = b + fs_u8("a"); Field<C> g = f; g.type = 'x'; g.alt = true; S<C> want = number(g, false, a);
  if (b == 0 && fs_choose(2, "null")) { Text<C> x; write(f, x); S<C> got = f.nested ? fly::string::format(x.t, nullptr, f.arg) : fly::string::format(x.t, nullptr); verdict(x, got, number(g, false, 0)); return; }
  const void *p; memcpy(&p, &a, 8); text(p, f, want);
}
// several fields and literals; positions pick the arguments
template <typename C> void several() {
  int a = fs_u8("a"), b = 100 + (fs_u8("b") & 127); S<C> s = vh::units<C>(1, "s"), got, want; S<C> da = wide<C>(vh::dec((uint64_t)a)), db = wide<C>(vh::dec((uint64_t)b));
  static const char *k[] = {"{}-{}{{{}}}", "{1}{0} {2}{1}", "}}{2:>{0}}{{", "{0}{0}{0}"}; unsigned i = fs_choose(4, "form"); if (i == 2) fs_assume(a < 5);
  S<C> t = wide<C>(k[i]); C x[16]; S<C> tail; while (t.size() < 15) { t += (C)'.'; tail += (C)'.'; } for (size_t j = 0; j < 15; j++) x[j] = t[j]; x[15] = 0;
  got = fly::string::format(x, a, b, s);
  switch (i) { case 0: want = da + C('-') + db + C('{') + s + C('}'); break; case 1: want = db + da + C(' ') + s + db; break; case 2: want = C('}') + times<C>(a > 1 ? (size_t)fs_concretize((uint64_t)a) - 1 : 0, C(' ')) + s + C('{'); break; default: want = da + da + da; }
  vh::observe(got); fs_assert(vh::same(got, want + tail), "fields are filled from the arguments they name"); fs_reach("formatted");
}
} // namespace
#define INT(T, t) FS_ENTRY c22_int_##t##_char() { integer<T, char>(); }
INT(int8_t, i8) INT(uint8_t, u8) INT(int16_t, i16) INT(uint16_t, u16) INT(int32_t, i32) INT(uint32_t, u32) INT(int64_t, i64) INT(uint64_t, u64) INT(long long, ll)
#define EACH(C, c) FS_ENTRY c22_int_i32_##c##_() { integer<int32_t, C>(); } FS_ENTRY c22_bool_##c() { boolean<C>(); } FS_ENTRY c22_str_##c() { str<C>(); } FS_ENTRY c22_ptr_##c() { pointer<C>(); } FS_ENTRY c22_several_##c() { several<C>(); } \
  FS_ENTRY c22_chr_char_##c() { character<char, C>(); } FS_ENTRY c22_chr_char8_##c() { character<char8_t, C>(); } FS_ENTRY c22_chr_char16_##c() { character<char16_t, C>(); } FS_ENTRY c22_chr_char32_##c() { character<char32_t, C>(); } FS_ENTRY c22_chr_wchar_##c() { character<wchar_t, C>(); } \
  FS_ENTRY c22_chr_i8_##c() { character<int8_t, C>(); } FS_ENTRY c22_chr_u16_##c() { character<uint16_t, C>(); } FS_ENTRY c22_chr_i64_##c() { character<int64_t, C>(); }
EACH(char, char) EACH(char8_t, char8) EACH(char16_t, char16) EACH(char32_t, char32) EACH(wchar_t, wchar)
#define OTH(V, v) FS_ENTRY c22_other_##v##_char() { other<V, char>(); } FS_ENTRY c22_other_##v##_char16() { other<V, char16_t>(); } FS_ENTRY c22_other_##v##_char32() { other<V, char32_t>(); }
OTH(char8_t, char8) OTH(wchar_t, wchar)
FS_ENTRY c22_other_char16_char() { other<char16_t, char>(); }
FS_ENTRY c22_other_char32_char() { other<char32_t, char>(); }
FS_ENTRY c22_other_char32_char16() { other<char32_t, char16_t>(); }
FS_ENTRY c22_other_char_wchar() { other<char, wchar_t>(); }
FS_ENTRY c22_other_char_char8() { other<char, char8_t>(); }
