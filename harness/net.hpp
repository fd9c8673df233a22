// Reference parsers for addresses, written from their textual definition.
#pragma once
#include "vh.h"
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/types/string/string.hpp"
namespace ref {
// decimal number in s[b,e): all digits, at least one; fails above 64 bits
inline bool number(const std::string &s, size_t b, size_t e, uint64_t &v) {
  if (b >= e) return false;
  v = 0;
  for (size_t i = b; i < e; i++) {
    unsigned char c = (unsigned char)s[i];
    if (((c >= '0') & (c <= '9')) == 0) return false;
    if (v > UINT64_MAX / 10 || v * 10 > UINT64_MAX - (c - '0')) return false;
    v = v * 10 + (c - '0');
  }
  return true;
}
inline bool ipv4(const std::string &s, size_t b, size_t e, uint32_t &host) {
  uint64_t part[4]; size_t n = 0, i = b;
  for (;;) {
    size_t j = i; while (j < e && s[j] != '.') j++;
    if (n == 4 || !number(s, i, j, part[n])) return false;
    n++;
    if (j == e) break;
    i = j + 1;
  }
  uint64_t ok = 1, v = 0;
  for (size_t k = 0; k + 1 < n; k++) { ok &= (uint64_t)(part[k] <= 255); v |= part[k] << (24 - 8 * k); }
  ok &= (uint64_t)(part[n - 1] < (1ULL << (8 * (5 - n))));
  host = (uint32_t)(v | part[n - 1]);
  return ok != 0;
}
inline bool hexdigit(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
// groups of 1..4 hexadecimal digits separated by single colons
inline bool groups(const std::string &s, size_t b, size_t e, std::vector<uint16_t> &g) {
  if (b == e) return true;
  for (size_t i = b;;) {
    size_t j = i; uint32_t v = 0;
    while (j < e && s[j] != ':') { unsigned char c = (unsigned char)s[j]; if (!hexdigit(c)) return false; v = (v << 4) | (uint32_t)fs_ite((c >= '0') & (c <= '9'), c - '0', (c | 0x20) - 'a' + 10); j++; }
    if (j == i || j - i > 4 || g.size() >= 8) return false;
    g.push_back((uint16_t)v);
    if (j == e) return true;
    i = j + 1;
  }
}
inline bool ipv6(const std::string &s, size_t b, size_t e, uint8_t (&out)[16]) {
  size_t dc = e;
  for (size_t i = b; i + 1 < e; i++) if (s[i] == ':' && s[i + 1] == ':') { dc = i; break; }
  std::vector<uint16_t> h, t;
  if (dc == e) { if (!groups(s, b, e, h) || h.size() != 8) return false; }
  else { if (!groups(s, b, dc, h) || !groups(s, dc + 2, e, t) || h.size() + t.size() > 7) return false; }
  memset(out, 0, 16);
  for (size_t i = 0; i < h.size(); i++) { out[2 * i] = (uint8_t)(h[i] >> 8); out[2 * i + 1] = (uint8_t)h[i]; }
  for (size_t i = 0; i < t.size(); i++) { size_t k = 16 - 2 * (t.size() - i); out[k] = (uint8_t)(t[i] >> 8); out[k + 1] = (uint8_t)t[i]; }
  return true;
}
} // namespace ref
