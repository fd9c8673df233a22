// C05/C06: Huffman coding.
#include "vh.h"
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"
#include <memory>
using namespace fly::coders;
struct Cfg : CoderConfig {
  Cfg(unsigned kb, unsigned len) { m_default_huffman_encoder_chunk_size_kb = (uint16_t)kb; m_default_huffman_encoder_max_code_length = (length_type)len; }
};
// bits of a stream after its header byte
struct Bits {
  const std::string &s; size_t pos = 0, total; bool ok;
  Bits(const std::string &d) : s(d), total(0), ok(d.size() > 0 && ((unsigned char)d[0] >> 3) == 0x1a) { if (ok && d.size() > 1) total = (d.size() - 1) * 8 - ((unsigned char)d[0] & 7); }
  bool get(unsigned n, uint64_t &v) {
    if (!ok || pos + n > total) return false;
    v = 0;
    if (pos % 8 == 0 && n % 8 == 0) for (unsigned i = 0; i < n; i += 8) v = v << 8 | (unsigned char)s[1 + (pos + i) / 8];
    else for (unsigned i = 0; i < n; i++) v = v << 1 | (uint64_t)(((unsigned char)s[1 + (pos + i) / 8] >> (7 - (pos + i) % 8)) & 1);
    pos += n; return true;
  }
};
// The stream format, decoded independently: header, then per chunk a table of canonical codes and the symbols.
struct Spec { bool ok = false, undecided = false; std::string out; unsigned longest = 0; bool duplicate = false; };
static Spec decode(const std::string &s) {
  Spec r; Bits b(s); uint64_t v, kb, lim;
  if (!b.get(8, v) || v != 1) return r;
  if (!b.get(16, kb) || kb == 0) return r;
  if (!b.get(8, lim) || lim == 0 || lim > 15) return r;
  while (b.pos < b.total) {
    uint64_t n; if (!b.get(8, n) || n == 0 || n > lim + 1) return r;
    uint64_t counts[17] = {}, all = 0;
    for (unsigned i = 0; i < n; i++) { if (!b.get(16, counts[i])) return r; }
    uint64_t code = 0; bool over = counts[0] != 0;
    for (unsigned i = 1; i < n; i++) { over |= code + counts[i] > (1ull << i); code = (code + counts[i]) << 1; if (over) break; all += counts[i]; }
    if (over) return r; // more codes than their lengths allow
    if (all > 256) { r.undecided = true; return r; }
    std::vector<unsigned char> symbols; bool seen[256] = {};
    for (uint64_t i = 0; i < all; i++) { if (!b.get(8, v)) return r; symbols.push_back((unsigned char)v); }
    (void)seen;
    if (n - 1 > r.longest) r.longest = (unsigned)n - 1;
    for (uint64_t done = 0; done < kb * 1024 && b.pos < b.total; done++) {
      uint64_t c = 0, first = 0, index = 0; bool found = false; // canonical decoding, bit by bit
      for (unsigned i = 1; i < n; i++) {
        uint64_t bit; if (!b.get(1, bit)) return r;
        c |= bit;
        if (c - first < counts[i] && c >= first) { r.out += (char)symbols[index + c - first]; found = true; break; }
        index += counts[i]; first = (first + counts[i]) << 1; c <<= 1;
      }
      if (!found) return r;
    }
  }
  r.ok = true; return r;
}
static void lossless(const std::string &text, unsigned kb, unsigned len, bool mustSucceed) {
  std::string enc, dec = "untouched"; HuffmanEncoder e(std::make_shared<Cfg>(kb, len));
  if (!e.encode_string(text, enc)) { fs_assert(!mustSucceed, "encoding succeeds whenever the limit allows it"); fs_reach("refused"); return; }
  HuffmanDecoder d;
  fs_assert(d.decode_string(enc, dec), "what was encoded can be decoded");
  fs_assert(vh::same(dec, text), "decoding yields the original");
  fs_reach("round");
}
static std::string message() {
  std::string text; unsigned n = (unsigned)fs_param("n", 3), abc = (unsigned)fs_param("abc", 4), seed = (unsigned)fs_param("form", 0);
  switch (seed) {
    case 0: break;
    case 1: text = std::string(8, 'a') + std::string(4, 'b') + "ccde"; break; // skewed: deep tree
    case 2: text = std::string(13, 'a') + std::string(8, 'b') + std::string(5, 'c') + "dddeef"; break; // Fibonacci frequencies
    case 3: for (int i = 0; i < 256; i++) text += (char)i; break;
    case 4: text = std::string(1022, 'b'); break; // next to the end of a chunk
    case 5: for (int i = 0; i < 1023; i++) text += (char)('a' + i % 3); break;
    case 6: for (int i = 0; i < 16; i++) text += (char)('a' + i); break;
    case 7: for (int i = 0; i < 1024; i++) text += (char)(i % 4 ? 'a' : 'b' + i % 16 / 4); break;
    case 8: for (int i = 0, k = 1; i < 9; i++, k *= 2) text += std::string(k, (char)('a' + i)); break;
  }
  // n symbols of an alphabet of `abc`: n * log2(abc) free bits, taken from one variable of up to 8 bits for as long as it lasts
  bool high = fs_param("high", 0) != 0; unsigned per = abc == 2 ? 1 : abc == 4 ? 2 : abc == 16 ? 4 : 3, left = 0, v = 0;
  for (unsigned i = 0; i < n; i++) { if (left < per) { bool rest = i > 0; v = fs_u8("symbols"); left = 8; if (rest) { unsigned bits = (n - i) * per; v = (unsigned)fs_concretize(v & ((bits < 8 ? 1u << bits : 256u) - 1)); } } text += (char)((high ? 0xfe : 'a') + (v & (abc - 1))); v >>= per; left -= per; }
  return text;
}
FS_ENTRY c05_round() {
  unsigned kb = (unsigned)fs_param("kb", 1), len = (unsigned)fs_param("len", 11);
  lossless(message(), kb, len, fs_param("must", 1) != 0);
}
// the encoded stream's code tables
FS_ENTRY c05_table() {
  unsigned len = (unsigned)fs_param("len", 3);
  std::string text = message(), enc; HuffmanEncoder e(std::make_shared<Cfg>(1, len));
  if (!e.encode_string(text, enc)) { fs_reach("refused"); return; }
  Spec s = decode(enc);
  fs_assert(s.ok && s.longest <= len, "the codes are prefix-free and within the length limit");
  fs_assert(vh::same(s.out, text), "the codes stand for the message");
  fs_reach("table");
}
// every configuration, also those that cannot work
FS_ENTRY c05_config() {
  unsigned kb = fs_u8("kb") & 3, len = fs_u8("len");
  kb = (unsigned)fs_concretize(kb); len = (unsigned)fs_concretize(len);
  std::string text = message(), enc, dec; HuffmanEncoder e(std::make_shared<Cfg>(kb, len));
  bool ok = e.encode_string(text, enc);
  if (kb >= 1 && len >= 8 && len < 16) fs_assert(ok, "every code length limit from 8 to 15 bits encodes everything");
  if (!ok) { fs_reach("refused"); return; }
  HuffmanDecoder d; fs_assert(d.decode_string(enc, dec) && vh::same(dec, text), "success means that decoding yields the original");
  fs_reach("round");
}
static void decodeAny(const std::string &s) {
  Spec want = decode(s); std::string out = "before"; HuffmanDecoder d;
  bool ok = d.decode_string(s, out);
  fs_observe(ok);
  if (want.undecided) { fs_reach("many codes"); return; }
  fs_assert(want.ok || !ok, "a truncated stream or an impossible code table is reported as an error");
  if (!ok) { fs_assert(!want.ok, "a well-formed stream is decoded"); fs_reach("rejected"); return; }
  fs_assert(vh::same(out, want.out), "the symbols the stream stands for"); fs_reach("decoded");
}
// every byte string of a given length
FS_ENTRY c06_bytes() {
  std::string s = vh::bytes((size_t)fs_param("n", 3), "stream");
  if (fs_param("form", 0)) s = std::string(1, (char)(0x1a << 3)) + s;
  if (s.size() > 3) fs_assume((s[2] == 0) & ((unsigned char)s[3] <= 2)); // small chunks: the buffer is allocated up front
  decodeAny(s);
}
// a valid header, then arbitrary content
FS_ENTRY c06_table() {
  unsigned n = (unsigned)fs_param("n", 6), len = (unsigned)fs_param("len", 2), unused = (unsigned)fs_param("rem", 0), cnt = (unsigned)fs_param("counts", 3);
  std::string s; s += (char)(0x1a << 3 | unused); s += '\1'; s += '\0'; s += '\1'; s += (char)len;
  if (cnt) { s += (char)cnt; for (unsigned i = 0; i < cnt; i++) { s += fs_param("big", 0) ? (char)fs_u8("count.hi") : '\0'; unsigned c = fs_u8("count.lo") & (unsigned)fs_param("mask", 7); s += (char)(fs_param("big", 0) ? c : fs_concretize(c)); } }
  s += vh::bytes(n, "rest");
  decodeAny(s);
}
// a valid stream, cut short or with one byte replaced
FS_ENTRY c06_corrupt() {
  unsigned len = (unsigned)fs_param("len", 3);
  std::string text = fs_param("form", 0) ? std::string(1024, 'x') + "hello" : std::string("abracadabra!"), enc;
  HuffmanEncoder e(std::make_shared<Cfg>(1, len)); fs_assume(e.encode_string(text, enc));
  size_t at = (size_t)fs_concretize((fs_u16("at") % enc.size()));
  if (fs_param("cut", 0)) { enc.resize(at); decodeAny(enc); return; }
  unsigned char c = fs_u8("byte"); enc[at] = (char)c;
  if (at == 2) fs_assume(c == 0);
  if (at == 3) fs_assume(c <= 2);
  decodeAny(enc);
}
// more codes than there are symbols
FS_ENTRY c06_many() {
  unsigned len = (unsigned)fs_param("len", 9), n = 240 + (fs_u8("count") & 31);
  std::string s; s += (char)(0x1a << 3); s += '\1'; s += '\0'; s += '\1'; s += (char)len; s += (char)(len + 1);
  for (unsigned i = 0; i <= len; i++) { unsigned c = i == len ? n : i == (unsigned)fs_param("also", 99) ? 2 : 0; s += (char)(c >> 8); s += (char)c; }
  for (unsigned i = 0; i < 280; i++) s += (char)(i * 7);
  std::string out; HuffmanDecoder d; fs_observe(d.decode_string(s, out)); fs_assert(out.size() <= 1024 * 32, "no more output than the chunks hold");
  fs_reach("done");
}
// through files
FS_ENTRY c05_file() {
  std::string root = vf_root(), text = message(), a = root + "/plain", b = root + "/coded", c = root + "/again";
  vf_put(a.c_str(), text.data(), text.size());
  HuffmanEncoder e(std::make_shared<Cfg>(1, 11)); fs_assert(e.encode_file(a, b), "encoding a file succeeds");
  HuffmanDecoder d; fs_assert(d.decode_file(b, c), "decoding the file succeeds");
  std::string got(text.size() + 8, 0); size_t k = vf_get(c.c_str(), got.data(), got.size()); fs_assert(k == text.size(), "the decoded file has the original size"); got.resize(k);
  fs_assert(vh::same(got, text), "the decoded file has the original content");
  fs_assert(!d.decode_file(root + "/missing", root + "/out"), "a missing input file is an error");
  fs_assert(!e.encode_file(root + "/missing", root + "/out"), "a missing input file is an error");
  fs_reach("file");
}
