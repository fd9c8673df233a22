// C09: escaping is the documented form, unescaping inverts it and accepts exactly the documented forms.
#include "vh.h"
#include "fly/types/string/string.hpp"
template <typename C> static void put_hex(std::basic_string<C> &r, uint32_t v, int digits) {
  for (int i = digits - 1; i >= 0; i--) { uint32_t d = (v >> (4 * i)) & 0xf; r += (C)fs_ite(d < 10, '0' + d, 'a' + d - 10); }
}
template <typename C> static std::basic_string<C> spec_escape(uint32_t cp, char prefix) {
  std::basic_string<C> r;
  if (cp >= 0x20 && cp <= 0x7e) { r += (C)cp; return r; }
  if (cp <= 0xffff) { r += (C)'\\'; r += (C)'u'; put_hex(r, cp, 4); }
  else if (prefix == 'U') { r += (C)'\\'; r += (C)'U'; put_hex(r, cp, 8); }
  else { r += (C)'\\'; r += (C)'u'; put_hex(r, 0xd800 + ((cp - 0x10000) >> 10), 4); r += (C)'\\'; r += (C)'u'; put_hex(r, 0xdc00 + ((cp - 0x10000) & 0x3ff), 4); }
  return r;
}
template <typename C, char P> static void escape(size_t k) {
  using S = fly::BasicString<C>;
  std::basic_string<C> s, want; bool bs = false;
  for (size_t i = 0; i < k; i++) { uint32_t cp = vh::codepoint("cp"); s += vh::spec_encode<C>(cp); want += spec_escape<C>(cp, P); bs |= cp == '\\'; }
  auto e = S::template escape_all_codepoints<P>(s);
  fs_assert(e.has_value(), "well-formed text can be escaped");
  fs_assert(vh::same(*e, want), "the escaped text has the documented form");
  vh::observe(*e);
  if (!bs) { fs_reach("round"); auto u = S::unescape_all_codepoints(*e); fs_assert(u.has_value() && vh::same(*u, s), "unescaping an escaped string restores it"); }
  // one codepoint at a time
  auto it = s.cbegin(); auto const end = s.cend();
  auto one = S::template escape_codepoint<P>(it, end);
  fs_assert(one.has_value(), "a codepoint can be escaped");
  vh::Dec d = vh::spec_decode(s.data(), s.size());
  fs_assert((size_t)(it - s.cbegin()) == d.len && vh::same(*one, spec_escape<C>(d.cp, P)), "escape_codepoint escapes exactly the first codepoint");
}
template <typename C, char P> static void escape_any(size_t n) {
  std::basic_string<C> s = vh::units<C>(n, "u");
  auto e = fly::BasicString<C>::template escape_all_codepoints<P>(s);
  fs_assert(e.has_value() == vh::spec_valid(s), "escaping succeeds exactly on well-formed text");
  fs_observe(e.has_value());
}
// digits of an escape: value, or failure
template <typename C> static bool hexes(const std::basic_string<C> &s, size_t at, size_t count, uint32_t &v) {
  if (at + count > s.size()) return false;
  uint64_t bad = 0; v = 0;
  for (size_t i = 0; i < count; i++) {
    uint32_t c = (uint32_t)(std::make_unsigned_t<C>)s[at + i];
    uint64_t dg = (c >= '0') & (c <= '9'), lo = (c >= 'a') & (c <= 'f'), up = (c >= 'A') & (c <= 'F');
    bad |= !(dg | lo | up);
    v = (v << 4) | (uint32_t)fs_ite(dg, c - '0', fs_ite(lo, c - 'a' + 10, c - 'A' + 10));
  }
  return bad == 0;
}
// unescape one escape at position i; on success advances and appends
template <typename C> static bool spec_one(const std::basic_string<C> &s, size_t &i, std::basic_string<C> &out) {
  if (i + 2 > s.size() || s[i] != (C)'\\') return false;
  uint32_t v;
  if (s[i + 1] == (C)'U') { if (!hexes(s, i + 2, 8, v) || !vh::scalar(v)) return false; out += vh::spec_encode<C>(v); i += 10; return true; }
  if (s[i + 1] != (C)'u') return false;
  if (!hexes(s, i + 2, 4, v)) return false;
  i += 6;
  if (v >= 0xdc00 && v <= 0xdfff) return false;
  if (v >= 0xd800 && v <= 0xdbff) {
    uint32_t w;
    if (i + 2 > s.size() || s[i] != (C)'\\' || s[i + 1] != (C)'u' || !hexes(s, i + 2, 4, w) || w < 0xdc00 || w > 0xdfff) return false;
    i += 6; v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
  }
  out += vh::spec_encode<C>(v);
  return true;
}
template <typename C> static void check_unescape(const std::basic_string<C> &s) {
  using S = fly::BasicString<C>;
  std::basic_string<C> want; bool ok = true;
  for (size_t i = 0; i < s.size();) {
    if (s[i] == (C)'\\' && i + 1 < s.size() && (s[i + 1] == (C)'u' || s[i + 1] == (C)'U')) { if (!spec_one(s, i, want)) { ok = false; break; } }
    else want += s[i++];
  }
  auto u = S::unescape_all_codepoints(s);
  fs_assert(u.has_value() == ok, "unescaping accepts exactly the documented escapes");
  if (u) { fs_reach("unescaped"); fs_assert(vh::same(*u, want), "unescaping yields the escaped codepoints"); vh::observe(*u); } else fs_reach("rejected");
  auto it = s.cbegin(); auto const end = s.cend();
  auto one = S::unescape_codepoint(it, end);
  size_t i = 0; std::basic_string<C> w1; bool ok1 = spec_one(s, i, w1);
  fs_assert(one.has_value() == ok1, "unescape_codepoint accepts exactly one documented escape");
  if (one) fs_assert(vh::same(*one, w1) && (size_t)(it - s.cbegin()) == i, "unescape_codepoint yields that codepoint and stops after it");
  else fs_assert((size_t)(it - s.cbegin()) <= s.size(), "the iterator stays within the string");
}
template <typename C> static void lit(std::basic_string<C> &s, const char *t) { while (*t) s += (C)*t++; }
template <typename C> static void unescape(unsigned form, size_t n) {
  std::basic_string<C> s;
  switch (form) {
    case 0: s = vh::units<C>(n, "u"); break;                                             // any short text
    case 1: lit(s, "\\u"); s += vh::units<C>(n, "u"); break;                             // \u + any
    case 2: lit(s, "\\uD"); s += vh::units<C>(3, "u"); lit(s, "\\u"); s += vh::units<C>(n, "v"); break; // surrogates
    case 3: lit(s, "\\ud8"); s += vh::units<C>(2, "u"); s += vh::units<C>(n, "v"); lit(s, "Dc00"); break;
    case 4: lit(s, "\\U00"); s += vh::units<C>(n, "u"); lit(s, "41"); break;             // \U, middle digits any
    case 5: lit(s, "\\U"); s += vh::units<C>(n, "u"); break;
    case 6: lit(s, "a\\U0000004"); s += vh::units<C>(n, "u"); break;
  }
  check_unescape(s);
}
#define ALL(C, N) \
  FS_ENTRY c09_escape_u_##N() { escape<C, 'u'>(fs_param("n", 1)); } \
  FS_ENTRY c09_escape_U_##N() { escape<C, 'U'>(fs_param("n", 1)); } \
  FS_ENTRY c09_escape_any_##N() { escape_any<C, 'u'>(fs_param("n", 3)); } \
  FS_ENTRY c09_unescape_##N() { unescape<C>(fs_param("form", 0), fs_param("n", 4)); }
ALL(char, char) ALL(char8_t, char8) ALL(char16_t, char16) ALL(char32_t, char32) ALL(wchar_t, wchar)
