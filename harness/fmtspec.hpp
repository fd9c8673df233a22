// What the format specification says about numbers and padding, independent of the code under test.
#pragma once
#include "vh.h"
namespace fspec {
template <typename C> using S = std::basic_string<C>;
template <typename C> S<C> wide(const std::string &s) { S<C> r; for (char c : s) r += (C)(unsigned char)c; return r; }
template <typename C> struct Field { bool filled = false; C fill = C(' '); char align = 0, sign = 0, type = 0; bool alt = false, zero = false, nested = false, manual = false; std::string width, precision; size_t w = 0; int arg = 0; };
template <typename C> S<C> times(size_t n, C c) { S<C> r; for (size_t i = 0; i < n; i++) r += c; return r; }
template <typename C> S<C> pad(const Field<C> &f, const S<C> &body, char dflt, size_t size) {
  size_t k = f.w > size ? f.w - size : 0; C c = f.filled ? f.fill : C(' ');
  switch (f.align ? f.align : dflt) { case '<': return body + times(k, c); case '>': return times(k, c) + body; default: return times(k / 2, c) + body + times(k - k / 2, c); }
}
template <typename C> S<C> number(const Field<C> &f, bool neg, uint64_t mag) {
  unsigned base = f.type == 'b' || f.type == 'B' ? 2 : f.type == 'o' ? 8 : f.type == 'x' || f.type == 'X' ? 16 : 10; bool up = f.type == 'X';
  char b[64]; int n = 0; do { unsigned d = (unsigned)(mag % base); b[n++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); mag /= base; } while (mag);
  S<C> pre, dig; while (n) dig += (C)b[--n];
  if (neg) pre += (C)'-'; else if (f.sign == '+' || f.sign == ' ') pre += (C)f.sign;
  if (f.alt) { pre += (C)'0'; if (base != 8) pre += (C)f.type; }
  if (f.zero && !f.align && f.w > pre.size() + dig.size()) return pre + times(f.w - pre.size() - dig.size(), C('0')) + dig;
  return pad(f, pre + dig, '>', pre.size() + dig.size());
}
} // namespace fspec
