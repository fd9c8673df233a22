// C21: text to integer conversion and the lexer.
#include "vh.h"
#include "fly/types/string/lexer.hpp"
#include "fly/types/string/string.hpp"
#include <limits>
template <typename C> static std::basic_string<C> text(unsigned form, size_t n, uint64_t base) {
  // 0: arbitrary units, 1: decimal digits, 2: a leading minus then decimal digits, 3: hexadecimal digits, 4: digits, then anything
  // 5: the decimal text of `base`, then n arbitrary digits; 6: the same after a minus; 7: n arbitrary digits, then the text of `base`
  std::basic_string<C> s;
  if (form == 0) return vh::units<C>(n, "u");
  if (form == 2 || form == 6) s += (C)'-';
  if (form == 5 || form == 6) for (char c : vh::dec(base)) s += (C)c;
  if (form == 8) for (size_t i = 0; i < base; i++) s += (C)'0';
  if (form == 9) for (size_t i = 0; i < base; i++) s += (C)'F';
  for (size_t i = 0; i < n; i++) {
    if (form == 3 || form == 9) { s += (C)vh::hexdigit("h"); continue; }
    s += (C)vh::digit("d");
  }
  if (form == 4) s += vh::units<C>(1, "u");
  if (form == 7) for (char c : vh::dec(base)) s += (C)c;
  return s;
}
// v * base + digit, unless that exceeds 64 bits
static void append(uint64_t &v, uint64_t &over, unsigned base, uint64_t digit) {
  if (v > UINT64_MAX / base) { over = 1; return; }
  uint64_t w = v * base + digit; over |= (uint64_t)(w < v * base); v = w;
}
template <typename C, typename T> static void convert(unsigned form, size_t n, uint64_t base) {
  std::basic_string<C> s = text<C>(form, n, base);
  n = s.size();
  auto r = fly::BasicString<C>::template convert<T>(s);
  bool neg = std::is_signed_v<T> && n && s[0] == (C)'-'; size_t i = neg ? 1 : 0;
  uint64_t ok = i < n, v = 0, over = 0;
  for (; i < n; i++) { uint32_t c = (uint32_t)(std::make_unsigned_t<C>)s[i]; ok &= (uint64_t)((c >= '0') & (c <= '9')); if (!ok) break; append(v, over, 10, c - '0'); }
  uint64_t lim = neg ? (uint64_t)std::numeric_limits<T>::max() + 1 : (uint64_t)std::numeric_limits<T>::max();
  ok &= (uint64_t)(v <= lim) & !over;
  fs_assert((uint64_t)r.has_value() == ok, "conversion succeeds exactly for decimal text that fits the type");
  if (r) { fs_reach("converted"); fs_assert((uint64_t)(int64_t)*r == (neg ? -v : v), "conversion yields the number denoted"); fs_observe((uint64_t)*r); }
  else fs_reach("rejected");
  fs_observe(r.has_value());
}
template <typename C> static void lexer(unsigned form, size_t n, uint64_t base) {
  std::basic_string<C> s = text<C>(form, n, base); n = s.size();
  bool hex = form == 9 || (form < 5 && fs_choose(2, "hex"));
  size_t start = form == 0 && n ? fs_choose((unsigned)n, "skip") : 0;
  fly::BasicLexer<C> lx{std::basic_string_view<C>(s)};
  for (size_t i = 0; i < start; i++) { auto c = lx.consume(); fs_assert(c && *c == s[i], "consume yields the next character"); }
  size_t e = start; uint64_t v = 0, over = 0;
  for (; e < n; e++) {
    uint32_t c = (uint32_t)(std::make_unsigned_t<C>)s[e];
    uint64_t dg = (c >= '0') & (c <= '9'), lo = (c >= 'a') & (c <= 'f'), up = (c >= 'A') & (c <= 'F');
    if (!(hex ? dg | lo | up : dg)) break;
    append(v, over, hex ? 16 : 10, fs_ite(dg, c - '0', fs_ite(lo, c - 'a' + 10, c - 'A' + 10)));
  }
  auto r = hex ? lx.consume_hex_number() : lx.consume_number();
  bool ok = e > start && !over;
  fs_assert(r.has_value() == ok, "a number is consumed exactly when digits are present and their value fits");
  if (r) { fs_reach("number"); fs_assert(*r == v, "the value is that of the digits"); fs_assert(lx.position() == e, "the lexer stops right after the digits"); fs_observe(*r); }
  else { fs_reach("none"); fs_assert(lx.position() == start, "nothing is consumed when no number is returned"); }
  fs_observe(lx.position());
}
template <typename C> static void walk(size_t n) {
  std::basic_string<C> s = vh::units<C>(n, "u");
  fly::BasicLexer<C> lx{std::basic_string_view<C>(s)};
  size_t pos = 0;
  for (int k = 0; k < 3; k++) {
    switch (fs_choose(4, "op")) {
      case 0: { auto c = lx.consume(); fs_assert(c.has_value() == (pos < n) && (!c || *c == s[pos]), "consume yields the next character or nothing at the end"); if (c) pos++; break; }
      case 1: { C x = vh::units<C>(1, "x")[0]; bool b = lx.consume_if(x); fs_assert(b == (pos < n && s[pos] == x), "consume_if consumes exactly an equal character"); if (b) pos++; break; }
      case 2: { size_t o = fs_choose(3, "off"); auto c = lx.peek(o); fs_assert(c.has_value() == (pos + o < n) && (!c || *c == s[pos + o]), "peek yields the character at the offset"); break; }
      case 3: { size_t p = fs_choose((unsigned)n + 1, "pos"); lx.set_position(p); pos = p; break; }
    }
    fs_assert(lx.position() == pos, "the position counts exactly what was consumed");
  }
  fs_assert(lx.view() == std::basic_string_view<C>(s), "the view is the whole text");
}
#define F fs_param("form", 0), fs_param("n", 3), fs_param("base", 0)
#define T(C, N, I, IN) FS_ENTRY c21_##N##_##IN() { convert<C, I>(F); }
#define ALL(C, N) T(C, N, int8_t, i8) T(C, N, uint8_t, u8) T(C, N, int16_t, i16) T(C, N, uint16_t, u16) T(C, N, int32_t, i32) T(C, N, uint32_t, u32) T(C, N, int64_t, i64) T(C, N, uint64_t, u64) \
  FS_ENTRY c21_lexer_##N() { lexer<C>(F); } FS_ENTRY c21_walk_##N() { walk<C>(fs_param("n", 3)); }
ALL(char, char) ALL(char8_t, char8) ALL(char16_t, char16) ALL(char32_t, char32) ALL(wchar_t, wchar)
