// Shared helpers for the harnesses.
#pragma once
#include "flysym.h"
#include "models.h"
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
namespace vh {
inline std::string bytes(size_t n, const char *name) { std::string s(n, '\0'); if (n) fs_bytes(s.data(), n, name); return s; }
template <typename C> inline std::basic_string<C> units(size_t n, const char *name) {
  std::basic_string<C> s(n, C(0));
  for (size_t i = 0; i < n; i++) { if constexpr (sizeof(C) == 1) s[i] = (C)fs_u8(name); else if constexpr (sizeof(C) == 2) s[i] = (C)fs_u16(name); else s[i] = (C)fs_u32(name); }
  return s;
}
// characters drawn from a given alphabet
inline std::string alphabet(size_t n, const char *abc, const char *name) {
  std::string s(n, '\0'); size_t k = strlen(abc);
  for (size_t i = 0; i < n; i++) { unsigned char c = fs_u8(name); uint64_t ok = 0; for (size_t j = 0; j < k; j++) ok |= (uint64_t)(c == (unsigned char)abc[j]); fs_assume(ok != 0); s[i] = (char)c; }
  return s;
}
// a decimal digit: its value is a masked byte, so that arithmetic on it stays narrow
inline unsigned char digit(const char *name) { unsigned char v = fs_u8(name) & 15; fs_assume(v <= 9); return (unsigned char)('0' + v); }
// a hexadecimal digit of either case
inline unsigned char hexdigit(const char *name) {
  unsigned char x = fs_u8(name), v = x & 15;
  if (x & 16) { fs_assume(v <= 9); return (unsigned char)('0' + v); }
  fs_assume(v <= 5); return (unsigned char)((x & 32 ? 'a' : 'A') + v);
}
// any Unicode scalar value, built from three bytes
inline uint32_t codepoint(const char *name) {
  uint32_t lo = fs_u8(name), mid = fs_u8(name), hi = fs_u8(name) & 31; fs_assume(hi <= 16);
  if (hi == 0) fs_assume((mid & 0xf8) != 0xd8);
  return hi << 16 | mid << 8 | lo;
}
// '?' any byte, '#' a decimal digit, '$' a hexadecimal digit, '_' a space or tab, anything else itself
inline std::string pattern(const char *p, const char *name = "p") {
  std::string s;
  for (; *p; p++) {
    if (*p != '?' && *p != '#' && *p != '$' && *p != '_') { s += *p; continue; }
    if (*p == '#') { s += (char)digit(name); continue; }
    if (*p == '$') { s += (char)hexdigit(name); continue; }
    unsigned char c = fs_u8(name);
    if (*p == '_') fs_assume(((uint64_t)(c == ' ') | (uint64_t)(c == 9)) != 0);
    s += (char)c;
  }
  return s;
}
// decimal text of a concrete-length number
inline std::string dec(uint64_t v) { char b[20]; int n = 0; do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); std::string s; while (n) s += b[--n]; return s; }
template <typename S> inline void observe(const S &s) { fs_observe(s.size()); for (auto c : s) fs_observe((uint64_t)(std::make_unsigned_t<typename S::value_type>)c); }
// ------- Unicode as defined by the standard (table 3-7), independent of the code under test
struct Dec { bool ok; uint32_t cp; size_t len; };
inline Dec spec_utf8(const unsigned char *p, size_t n) {
  if (n == 0) return {false, 0, 0};
  unsigned b0 = p[0];
  auto cont = [](unsigned b, unsigned lo, unsigned hi) { return (b >= lo) & (b <= hi); };
  if (b0 <= 0x7f) return {true, b0, 1};
  if (b0 >= 0xc2 && b0 <= 0xdf) { if (n >= 2 && cont(p[1], 0x80, 0xbf)) return {true, ((b0 & 0x1f) << 6) | (p[1] & 0x3fu), 2}; return {false, 0, 0}; }
  if (b0 >= 0xe0 && b0 <= 0xef) {
    unsigned lo = b0 == 0xe0 ? 0xa0 : 0x80, hi = b0 == 0xed ? 0x9f : 0xbf;
    if (n >= 3 && cont(p[1], lo, hi) && cont(p[2], 0x80, 0xbf)) return {true, ((b0 & 0xf) << 12) | ((p[1] & 0x3fu) << 6) | (p[2] & 0x3fu), 3};
    return {false, 0, 0}; }
  if (b0 >= 0xf0 && b0 <= 0xf4) {
    unsigned lo = b0 == 0xf0 ? 0x90 : 0x80, hi = b0 == 0xf4 ? 0x8f : 0xbf;
    if (n >= 4 && cont(p[1], lo, hi) && cont(p[2], 0x80, 0xbf) && cont(p[3], 0x80, 0xbf)) return {true, ((b0 & 7) << 18) | ((p[1] & 0x3fu) << 12) | ((p[2] & 0x3fu) << 6) | (p[3] & 0x3fu), 4};
    return {false, 0, 0}; }
  return {false, 0, 0};
}
template <typename C> inline Dec spec_decode(const C *p, size_t n) {
  if constexpr (sizeof(C) == 1) return spec_utf8((const unsigned char *)p, n);
  else if constexpr (sizeof(C) == 2) {
    if (!n) return {false, 0, 0};
    uint32_t a = (uint16_t)p[0]; if (a < 0xd800 || a > 0xdfff) return {true, a, 1};
    if (a > 0xdbff || n < 2) return {false, 0, 0};
    uint32_t b = (uint16_t)p[1]; if (b < 0xdc00 || b > 0xdfff) return {false, 0, 0};
    return {true, 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00), 2};
  } else {
    if (!n) return {false, 0, 0};
    uint32_t a = (uint32_t)p[0]; if (a > 0x10ffff || (a >= 0xd800 && a <= 0xdfff)) return {false, 0, 0};
    return {true, a, 1};
  }
}
// encoded length and units of a scalar value
template <typename C> inline std::basic_string<C> spec_encode(uint32_t cp) {
  std::basic_string<C> r;
  if constexpr (sizeof(C) == 1) {
    if (cp < 0x80) r += (C)cp;
    else if (cp < 0x800) { r += (C)(0xc0 | (cp >> 6)); r += (C)(0x80 | (cp & 0x3f)); }
    else if (cp < 0x10000) { r += (C)(0xe0 | (cp >> 12)); r += (C)(0x80 | ((cp >> 6) & 0x3f)); r += (C)(0x80 | (cp & 0x3f)); }
    else { r += (C)(0xf0 | (cp >> 18)); r += (C)(0x80 | ((cp >> 12) & 0x3f)); r += (C)(0x80 | ((cp >> 6) & 0x3f)); r += (C)(0x80 | (cp & 0x3f)); }
  } else if constexpr (sizeof(C) == 2) {
    if (cp < 0x10000) r += (C)cp; else { r += (C)(0xd800 + ((cp - 0x10000) >> 10)); r += (C)(0xdc00 + ((cp - 0x10000) & 0x3ff)); }
  } else r += (C)cp;
  return r;
}
template <typename C> inline bool spec_valid(const std::basic_string<C> &s) { size_t i = 0; while (i < s.size()) { Dec d = spec_decode(s.data() + i, s.size() - i); if (!d.ok) return false; i += d.len; } return true; }
inline bool scalar(uint32_t cp) { return (cp <= 0x10ffff) & !((cp >= 0xd800) & (cp <= 0xdfff)); }
// equality decided in one query instead of one fork per unit
template <typename S, typename T> inline bool same(const S &a, const T &b) { if (a.size() != b.size()) return false; uint64_t d = 0; for (size_t i = 0; i < a.size(); i++) d |= (uint64_t)(a[i] ^ b[i]); return d == 0; }
} // namespace vh
