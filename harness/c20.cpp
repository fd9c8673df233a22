// C20: classification and case mapping are those of the default C locale.
#include "vh.h"
#include "fly/types/string/string.hpp"
template <typename C> static void classify() {
  using S = fly::BasicString<C>;
  C c = vh::units<C>(1, "c")[0]; uint32_t u = (uint32_t)(std::make_unsigned_t<C>)c;
  uint64_t up = (u >= 'A') & (u <= 'Z'), lo = (u >= 'a') & (u <= 'z'), dg = (u >= '0') & (u <= '9');
  uint64_t hx = dg | ((u >= 'A') & (u <= 'F')) | ((u >= 'a') & (u <= 'f')), sp = (u == ' ') | ((u >= 9) & (u <= 13));
  fs_assert((uint64_t)S::is_upper(c) == up, "is_upper");
  fs_assert((uint64_t)S::is_lower(c) == lo, "is_lower");
  fs_assert((uint64_t)S::is_alpha(c) == (up | lo), "is_alpha");
  fs_assert((uint64_t)S::is_digit(c) == dg, "is_digit");
  fs_assert((uint64_t)S::is_x_digit(c) == hx, "is_x_digit");
  fs_assert((uint64_t)S::is_space(c) == sp, "is_space");
  uint32_t tu = (uint32_t)(std::make_unsigned_t<C>)S::to_upper(c), tl = (uint32_t)(std::make_unsigned_t<C>)S::to_lower(c);
  fs_assert(tu == (uint32_t)fs_ite(lo, u - 32, u), "to_upper");
  fs_assert(tl == (uint32_t)fs_ite(up, u + 32, u), "to_lower");
  fs_observe(tu); fs_observe(tl);
  fs_reach("done");
}
// length of null-terminated text in every form size() accepts
template <typename C> static void length() {
  std::basic_string<C> s = vh::units<C>(3, "s");
  size_t z = 0; while (z < 3 && s[z] != 0) z++;
  fs_assert((size_t)fly::BasicString<C>::size(s) == 3, "the size of a string is its length");
  fs_assert((size_t)fly::BasicString<C>::size(std::basic_string_view<C>(s)) == 3, "the size of a view is its length");
  fs_assert((size_t)fly::BasicString<C>::size(s.c_str()) == z, "the size of a null-terminated string is the length before its terminator");
  fs_observe(z);
}
#define ALL(C, N) FS_ENTRY c20_##N() { classify<C>(); } FS_ENTRY c20_size_##N() { length<C>(); }
ALL(char, char) ALL(char8_t, char8) ALL(char16_t, char16) ALL(char32_t, char32) ALL(wchar_t, wchar)
