// C07: Unicode validation, decoding and encoding follow the Unicode standard.
#include "vh.h"
#include "fly/types/string/string.hpp"
template <typename C> static void decode(size_t n) {
  using S = fly::BasicString<C>;
  std::basic_string<C> s = vh::units<C>(n, "u");
  auto it = s.cbegin(); auto const end = s.cend();
  auto r = S::decode_codepoint(it, end);
  vh::Dec d = vh::spec_decode(s.data(), n);
  fs_assert(r.has_value() == d.ok, "decode_codepoint accepts exactly well-formed sequences");
  if (r) { fs_reach("decoded"); fs_assert((uint32_t)*r == d.cp, "decode_codepoint yields the encoded codepoint"); fs_assert((size_t)(it - s.cbegin()) == d.len, "decode_codepoint advances past exactly the code units of the codepoint"); fs_observe((uint32_t)*r); }
  else { fs_reach("rejected"); fs_assert(it - s.cbegin() >= 0 && (size_t)(it - s.cbegin()) <= n, "the iterator stays within the string"); }
  fs_observe(r.has_value());
}
template <typename C> static void validate(size_t n) {
  using S = fly::BasicString<C>;
  std::basic_string<C> s = vh::units<C>(n, "u");
  bool r = S::validate(s);
  fs_assert(r == vh::spec_valid(s), "validate accepts exactly well-formed strings");
  fs_reach(r ? "valid" : "invalid");
  fs_observe(r);
}
template <typename C> static void encode() {
  using S = fly::BasicString<C>;
  uint32_t cp = fs_u32("cp");
  auto r = S::encode_codepoint(static_cast<typename S::codepoint_type>(cp));
  fs_assert(r.has_value() == vh::scalar(cp), "encode_codepoint accepts exactly the Unicode scalar values");
  if (r) { fs_reach("encoded"); fs_assert(vh::same(*r, vh::spec_encode<C>(cp)), "encode_codepoint yields the standard encoding"); vh::observe(*r); }
  else fs_reach("rejected");
  fs_observe(r.has_value());
}
#define ALL(C, N) \
  FS_ENTRY c07_decode_##N() { decode<C>(fs_param("n", 4)); } \
  FS_ENTRY c07_validate_##N() { validate<C>(fs_param("n", 3)); } \
  FS_ENTRY c07_encode_##N() { encode<C>(); }
ALL(char, char) ALL(char8_t, char8) ALL(char16_t, char16) ALL(char32_t, char32) ALL(wchar_t, wchar)
