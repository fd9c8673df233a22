// C18: split, trim, join, replace.
#include "vh.h"
#include "fly/types/string/string.hpp"
template <typename C> static bool space(C c) { return (c == (C)' ') | ((c >= (C)9) & (c <= (C)13)); }
template <typename C> static void trim(size_t n) {
  std::basic_string<C> s = vh::units<C>(n, "u"), t = s;
  fly::BasicString<C>::trim(t);
  size_t b = 0, e = n; while (b < e && space(s[b])) b++; while (e > b && space(s[e - 1])) e--;
  if (e - b < n) fs_reach("trimmed");
  fs_assert(vh::same(t, s.substr(b, e - b)), "trim removes exactly the leading and trailing whitespace");
  vh::observe(t);
}
template <typename C> static void split(size_t n) {
  std::basic_string<C> s = vh::units<C>(n, "u"); C d = vh::units<C>(1, "d")[0];
  size_t count = fs_choose(n + 2, "count");
  std::vector<std::basic_string<C>> pieces; std::basic_string<C> cur;
  for (size_t i = 0; i <= n; i++) { if (i == n || s[i] == d) { if (!cur.empty()) pieces.push_back(cur); cur.clear(); } else cur += s[i]; }
  if (count) while (pieces.size() > count) { auto l = pieces.back(); pieces.pop_back(); auto m = pieces.back(); pieces.pop_back(); m += d; m += l; pieces.push_back(m); }
  auto r = count == 0 && fs_choose(2, "overload") ? fly::BasicString<C>::split(s, d) : fly::BasicString<C>::split(s, d, count);
  fs_assert(r.size() == pieces.size(), "split yields the non-empty pieces, at most the requested count");
  for (size_t i = 0; i < r.size(); i++) { fs_assert(vh::same(r[i], pieces[i]), "split yields each piece in order, the rest in the last one"); vh::observe(r[i]); }
  if (r.size() > 1) fs_reach("several");
}
template <typename C> static void join(size_t n) {
  using S = std::basic_string<C>;
  S a = vh::units<C>(n, "a"), b = vh::units<C>(n, "b"), c = vh::units<C>(1, "c"); C d = vh::units<C>(1, "d")[0];
  S j = fly::BasicString<C>::join(d, a, b, c);
  S want = a; want += d; want += b; want += d; want += c;
  fs_assert(vh::same(j, want), "join concatenates the pieces with the separator between them");
  vh::observe(j);
  uint64_t clean = 1; for (auto &p : {a, b, c}) for (C x : p) clean &= (uint64_t)(x != d);
  if (n && clean) { fs_reach("clean"); auto r = fly::BasicString<C>::split(j, d); fs_assert(r.size() == 3 && vh::same(r[0], a) && vh::same(r[1], b) && vh::same(r[2], c), "splitting joined pieces restores them"); }
}
// one pass, left to right, over non-overlapping occurrences
template <typename C> static std::basic_string<C> spec_replace(const std::basic_string<C> &s, const std::basic_string<C> &f, const std::basic_string<C> &r) {
  if (f.empty()) return s;
  std::basic_string<C> out; size_t i = 0;
  while (i < s.size()) { bool m = i + f.size() <= s.size(); for (size_t k = 0; m && k < f.size(); k++) m = s[i + k] == f[k]; if (m) { out += r; i += f.size(); } else out += s[i++]; }
  return out;
}
template <typename C> static void replace(size_t n) {
  using S = std::basic_string<C>;
  size_t m = fs_choose(3, "search"), k = fs_choose(4, "replacement");
  S s = vh::units<C>(n, "s"), f = vh::units<C>(m, "f"), t = s, r, want;
  if (k == 3) { r = vh::units<C>(1, "r"); fly::BasicString<C>::replace_all(t, f, r[0]); }
  else if (k == 0 && fs_choose(2, "remove")) fly::BasicString<C>::remove_all(t, f);
  else { r = vh::units<C>(k, "r"); fly::BasicString<C>::replace_all(t, f, r); }
  want = spec_replace(s, f, r);
  if (m && want.size() != s.size()) fs_reach("replaced");
  fs_assert(vh::same(t, want), "every occurrence, left to right, is replaced and nothing else changes");
  vh::observe(t);
}
#define ALL(C, N) \
  FS_ENTRY c18_trim_##N() { trim<C>(fs_param("n", 3)); } \
  FS_ENTRY c18_split_##N() { split<C>(fs_param("n", 4)); } \
  FS_ENTRY c18_join_##N() { join<C>(fs_param("n", 2)); } \
  FS_ENTRY c18_replace_##N() { replace<C>(fs_param("n", 4)); }
ALL(char, char) ALL(char8_t, char8) ALL(char16_t, char16) ALL(char32_t, char32) ALL(wchar_t, wchar)
