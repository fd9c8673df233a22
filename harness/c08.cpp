// C08: conversion between Unicode encodings is lossless, for every pair of character types.
#include "vh.h"
#include "fly/types/string/string.hpp"
template <typename C, typename D> static void conv(size_t n) {
  std::basic_string<C> s = vh::units<C>(n, "u");
  auto r = fly::BasicString<C>::template convert<std::basic_string<D>>(s);
  std::basic_string<D> want; bool ok = true;
  for (size_t i = 0; i < n;) { vh::Dec d = vh::spec_decode(s.data() + i, n - i); if (!d.ok) { ok = false; break; } want += vh::spec_encode<D>(d.cp); i += d.len; }
  fs_assert(r.has_value() == ok, "conversion succeeds exactly for well-formed source text");
  if (r) {
    fs_reach("converted");
    fs_assert(vh::same(*r, want), "the converted text denotes the same codepoints");
    auto b = fly::BasicString<D>::template convert<std::basic_string<C>>(*r);
    fs_assert(b.has_value() && vh::same(*b, s), "converting back restores the source");
    vh::observe(*r);
  } else fs_reach("rejected");
  fs_observe(r.has_value());
}
#define P(C, CN, D, DN) FS_ENTRY c08_##CN##_##DN() { conv<C, D>(fs_param("n", 2)); }
#define R(C, CN) P(C, CN, char, char) P(C, CN, char8_t, char8) P(C, CN, char16_t, char16) P(C, CN, char32_t, char32) P(C, CN, wchar_t, wchar)
R(char, char) R(char8_t, char8) R(char16_t, char16) R(char32_t, char32) R(wchar_t, wchar)
