// C01/C02: Base64.
#include "vh.h"
#include "fly/coders/base64/base64_coder.hpp"
#include <memory>
static const char ABC[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char sym(uint32_t v) { // the standard alphabet, without a table
  v &= 63;
  return (char)fs_ite(v < 26, 'A' + v, fs_ite(v < 52, 'a' + v - 26, fs_ite(v < 62, '0' + v - 52, fs_ite(v == 62, '+', '/'))));
}
static int val(unsigned char c) { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '+') return 62; if (c == '/') return 63; return -1; }
static std::string specEncode(const std::string &s) {
  std::string r; size_t i = 0;
  for (; i + 3 <= s.size(); i += 3) { uint32_t v = (uint32_t)(unsigned char)s[i] << 16 | (uint32_t)(unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; r += sym(v >> 18); r += sym(v >> 12); r += sym(v >> 6); r += sym(v); }
  if (s.size() - i == 1) { uint32_t v = (uint32_t)(unsigned char)s[i] << 16; r += sym(v >> 18); r += sym(v >> 12); r += "=="; }
  if (s.size() - i == 2) { uint32_t v = (uint32_t)(unsigned char)s[i] << 16 | (uint32_t)(unsigned char)s[i + 1] << 8; r += sym(v >> 18); r += sym(v >> 12); r += sym(v >> 6); r += '='; }
  return r;
}
FS_ENTRY c01_round() {
  unsigned n = (unsigned)fs_param("n", 3);
  std::string s = vh::bytes(n, "s"), e, d = "left over";
  auto c = std::make_unique<fly::coders::Base64Coder>();
  fs_assert(c->encode_string(s, e), "encoding succeeds");
  fs_assert(vh::same(e, specEncode(s)), "the text is the RFC 4648 encoding");
  fs_assert(c->decode_string(e, d), "decoding the encoding succeeds");
  fs_assert(vh::same(d, s), "decoding restores the bytes");
  vh::observe(e); fs_reach("round");
}
// one coder used twice: nothing of the first input shows in the second
FS_ENTRY c01_again() {
  unsigned n = (unsigned)fs_param("n", 1), m = (unsigned)fs_param("m", 5);
  std::string a = vh::bytes(m, "a"), s = vh::bytes(n, "s"), e, d;
  auto c = std::make_unique<fly::coders::Base64Coder>();
  fs_assert(c->encode_string(a, e), "encoding succeeds"); fs_assert(c->encode_string(s, e), "encoding succeeds");
  fs_assert(vh::same(e, specEncode(s)), "the text is the RFC 4648 encoding");
  fs_assert(c->decode_string(e, d) && vh::same(d, s), "decoding restores the bytes");
  fs_reach("round");
}
// inputs around the size of the coder's buffers: concrete filler, arbitrary bytes at the end
FS_ENTRY c01_long() {
  unsigned n = (unsigned)fs_param("n", 196608), k = (unsigned)fs_param("k", 3);
  std::string s(n, '\0'); for (unsigned i = 0; i < n; i++) s[i] = (char)(i * 7 + (i >> 8));
  fs_bytes(s.data() + (n - k), k, "tail");
  auto c = std::make_unique<fly::coders::Base64Coder>(); std::string e, d;
  fs_assert(c->encode_string(s, e), "encoding succeeds");
  fs_assert(e.size() == (n + 2) / 3 * 4, "the text is as long as the encoding");
  size_t from = (n - k) / 3 * 3; from = from > 12 ? from - 12 : 0;
  fs_assert(vh::same(e.substr(from / 3 * 4), specEncode(s.substr(from))), "the text ends with the encoding of the last bytes");
  fs_assert(e.compare(0, from / 3 * 4, specEncode(s.substr(0, from))) == 0, "the text starts with the encoding of the first bytes");
  fs_assert(c->decode_string(e, d), "decoding the encoding succeeds");
  fs_assert(d.size() == s.size(), "decoding restores the length");
  fs_assert(d.compare(0, n - k, s, 0, n - k) == 0 && vh::same(d.substr(n - k), s.substr(n - k)), "decoding restores the bytes");
  fs_reach("round");
}
static void decodeCheck(const std::string &t) {
  size_t n = t.size(); bool ok = n % 4 == 0; std::string want;
  for (size_t i = 0; ok && i < n; i += 4) {
    int a = val((unsigned char)t[i]), b = val((unsigned char)t[i + 1]), c = val((unsigned char)t[i + 2]), d = val((unsigned char)t[i + 3]);
    bool last = i + 4 == n, pd = t[i + 3] == '=', pc = t[i + 2] == '=' && pd;
    if (a < 0 || b < 0 || (c < 0 && !(last && pc)) || (d < 0 && !(last && pd))) { ok = false; break; }
    want += (char)(a << 2 | b >> 4); if (!pc) want += (char)(b << 4 | c >> 2); if (!pd) want += (char)(c << 6 | d);
  }
  std::string out; auto c = std::make_unique<fly::coders::Base64Coder>();
  bool got = c->decode_string(t, out);
  fs_assert(got == ok, "decoding succeeds exactly for well-formed text");
  if (got) { fs_assert(vh::same(out, want), "the bytes denoted by the symbols"); fs_reach("decoded"); } else fs_reach("rejected");
}
FS_ENTRY c02_decode() { decodeCheck(vh::bytes((unsigned)fs_param("n", 4), "t")); }
// arbitrary bytes at selected positions of otherwise valid text
FS_ENTRY c02_shape() {
  static const char *const P[] = {"QUJD????", "????QUJD", "????QQ==", "QUI=????", "QQ??QQ??", "QUJDQUJDQU??", "QUI?QUI?", "Q???====", "QUJDQUJDQ????", "?UJDQUJD?UJDQUI?"};
  decodeCheck(vh::pattern(P[fs_param("form", 0)], "t"));
}
// a byte that is not a symbol, or padding, in the middle of text longer than the buffers
FS_ENTRY c02_long() {
  unsigned n = (unsigned)fs_param("n", 262144), at = (unsigned)fs_param("at", 262140);
  std::string t(n, 'Q'); unsigned char c = fs_u8("c"), d = fs_u8("d"); t[at] = (char)c; if (at + 1 < n) t[at + 1] = (char)d;
  std::string out; auto co = std::make_unique<fly::coders::Base64Coder>();
  bool got = co->decode_string(t, out);
  bool okc = val(c) >= 0 || (c == '=' && at + 1 == n) || (c == '=' && at + 2 == n && d == '='), okd = at + 1 >= n || val(d) >= 0 || (d == '=' && at + 2 == n);
  fs_assert(got == (n % 4 == 0 && okc && okd), "decoding succeeds exactly for well-formed text");
  if (got) { fs_assert(out.size() == n / 4 * 3 - (c == '=') - (at + 1 < n && d == '='), "as many bytes as the symbols denote"); fs_reach("decoded"); } else fs_reach("rejected");
}
