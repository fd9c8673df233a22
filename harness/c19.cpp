// C19: wildcard matching is the standard meaning of '*'.
#include "vh.h"
#include "fly/types/string/string.hpp"
template <typename C> static void wild(size_t n, size_t m) {
  std::basic_string<C> s = vh::units<C>(n, "s"), p = vh::units<C>(m, "p");
  bool r = fly::BasicString<C>::wildcard_match(s, p);
  // dynamic program without branches on the text
  std::vector<uint64_t> row(n + 1, 0); row[0] = 1;
  for (size_t j = 0; j < m; j++) {
    std::vector<uint64_t> next(n + 1, 0); uint64_t star = p[j] == (C)'*';
    for (size_t i = 0; i <= n; i++) { uint64_t lit = i ? (row[i - 1] & (uint64_t)(s[i - 1] == p[j])) : 0; uint64_t any = row[i] | (i ? next[i - 1] : 0); next[i] = fs_ite(star, any, lit); }
    row = next;
  }
  bool want = m != 0 && row[n] != 0;
  fs_assert(r == want, "a pattern matches exactly the strings it denotes (the empty pattern none)");
  fs_reach(r ? "match" : "mismatch");
  fs_observe(r);
}
#define ALL(C, N) FS_ENTRY c19_##N() { wild<C>(fs_param("n", 3), fs_param("m", 3)); }
ALL(char, char) ALL(char8_t, char8) ALL(char16_t, char16) ALL(char32_t, char32) ALL(wchar_t, wchar)
