// C03/C04: bit streams.
#include "vh.h"
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"
#include <sstream>
#include <streambuf>
using namespace fly;
static uint64_t low(uint64_t v, unsigned w) { return w == 0 ? 0 : v & (~0ull >> (64 - w)); }
struct Op { unsigned type, width; uint64_t value; };
static void put(BitStreamWriter &w, const Op &o) {
  switch (o.type) {
    case 0: w.write_bits((uint8_t)o.value, (byte_type)o.width); break;
    case 1: w.write_bits((uint16_t)o.value, (byte_type)o.width); break;
    case 2: w.write_bits((uint32_t)o.value, (byte_type)o.width); break;
    case 3: w.write_bits((uint64_t)o.value, (byte_type)o.width); break;
    case 4: w.write_byte((byte_type)o.value); break;
    case 5: w.write_word((word_type)o.value); break;
  }
}
struct Got { unsigned n; uint64_t v; };
static Got get(BitStreamReader &r, unsigned type, unsigned width) {
  if (type == 0) { uint8_t v = 0; unsigned n = r.read_bits(v, (byte_type)width); return {n, v}; }
  if (type == 1) { uint16_t v = 0; unsigned n = r.read_bits(v, (byte_type)width); return {n, v}; }
  if (type == 2) { uint32_t v = 0; unsigned n = r.read_bits(v, (byte_type)width); return {n, v}; }
  if (type == 3) { uint64_t v = 0; unsigned n = r.read_bits(v, (byte_type)width); return {n, v}; }
  if (type == 4) { byte_type v = 0; bool ok = r.read_byte(v); return {ok ? 8u : 0u, v}; }
  word_type v = 0; bool ok = r.read_word(v); return {ok ? 16u : 0u, v};
}
static const unsigned digits[] = {8, 16, 32, 64, 8, 16};
// one write: its kind and value (all bits, also those above the width); the width is symbolic within [lo, hi]
static Op anyOp(unsigned type, unsigned lo, unsigned hi) {
  Op o{type, digits[type], 0};
  switch (digits[type]) { case 8: o.value = fs_u8("value"); break; case 16: o.value = fs_u16("value"); break; case 32: o.value = fs_u32("value"); break; default: o.value = fs_u64("value"); }
  if (type < 4) { o.width = fs_u8("width") & 127; fs_assume(((uint64_t)(o.width >= lo) & (uint64_t)(o.width <= hi) & (uint64_t)(o.width <= digits[type])) != 0); o.width = (unsigned)fs_concretize(o.width); } // one path per width, values stay symbolic
  return o;
}
// after `pre` concrete bits, every combination of `n` writes of the kinds given by the base-6 digits of `types`
FS_ENTRY c03_round() {
  unsigned pre = (unsigned)fs_param("pre", 0), n = (unsigned)fs_param("n", 2), types = (unsigned)fs_param("types", 0), lo = (unsigned)fs_param("lo", 0), hi = (unsigned)fs_param("hi", 64);
  std::ostringstream out; BitStreamWriter w(out);
  for (unsigned i = pre; i > 0;) { unsigned k = i > 32 ? 32 : i; w.write_bits((uint32_t)0xa5c3f01e, (byte_type)k); i -= k; }
  Op ops[4]; uint64_t total = pre;
  for (unsigned i = 0; i < n; i++) { ops[i] = anyOp(types % 6, lo, hi); types /= 6; total += ops[i].width; put(w, ops[i]); }
  fs_assert(w.finish(), "writing succeeds");
  std::string s = out.str();
  fs_assert(s.size() == 1 + (total + 7) / 8, "the stream holds a header and the bits written, zero-filled to a byte");
  std::istringstream in(s); BitStreamReader r(in);
  for (unsigned i = pre; i > 0;) { unsigned k = i > 32 ? 32 : i; uint32_t v; fs_assert(r.read_bits(v, (byte_type)k) == k && v == low(0xa5c3f01e, k), "earlier bits are read back"); i -= k; }
  for (unsigned i = 0; i < n; i++) {
    Got g = get(r, ops[i].type, ops[i].width);
    fs_assert(g.n == ops[i].width, "as many bits as written are read");
    fs_assert(g.v == low(ops[i].value, ops[i].width), "the bits written are read back");
  }
  fs_assert(r.fully_consumed(), "the stream is fully consumed after reading what was written");
  uint8_t more = 0xff; fs_assert(r.read_bits(more, 8) == 0, "no bits beyond those written");
  fs_assert(r.fully_consumed(), "the stream stays fully consumed");
  fs_reach("read");
}
// reading with other widths than those used for writing
FS_ENTRY c03_regroup() {
  unsigned type = (unsigned)fs_param("type", 3), bytes = (unsigned)fs_param("bytes", 9), rem = (unsigned)fs_param("rem", 0);
  std::string data = vh::bytes(bytes, "data");
  std::ostringstream out; BitStreamWriter w(out);
  for (unsigned i = 0; i < bytes; i++) w.write_byte((byte_type)data[i]);
  for (unsigned i = 0; i < rem; i++) w.write_bits((uint8_t)1, 1);
  fs_assert(w.finish(), "writing succeeds");
  std::istringstream in(out.str()); BitStreamReader r(in);
  unsigned total = bytes * 8 + rem, pos = 0;
  unsigned first = (unsigned)fs_param("first", 0);
  auto bit = [&](unsigned i) -> uint64_t { return i >= bytes * 8 ? 1 : (uint64_t)(((unsigned char)data[i / 8] >> (7 - i % 8)) & 1); };
  for (unsigned step = 0; step < 24 && pos < total; step++) {
    unsigned k = step == 0 && first ? first : digits[type];
    Got g = get(r, type, k); unsigned want = total - pos < k ? total - pos : k;
    fs_assert(g.n == want, "all remaining bits up to the requested number are read");
    uint64_t v = 0; for (unsigned i = 0; i < want; i++) v = v << 1 | bit(pos + i);
    if (want) v <<= (k - want);
    fs_assert(g.v == v, "bits are read in order, most significant first");
    pos += want;
  }
  fs_assert(pos == total && r.fully_consumed(), "everything was read");
  fs_reach("read");
}
// peeking does not consume, discarding consumes
FS_ENTRY c03_peek() {
  unsigned bytes = (unsigned)fs_param("bytes", 9), first = (unsigned)fs_param("first", 0);
  std::string data = vh::bytes(bytes, "data"); unsigned width = fs_u8("width") & 31, part = fs_u8("part") & 31;
  fs_assume(((uint64_t)(width >= 1) & (uint64_t)(width <= 16) & (uint64_t)(part <= width)) != 0);
  std::ostringstream out; BitStreamWriter w(out);
  for (unsigned i = 0; i < bytes; i++) w.write_byte((byte_type)data[i]);
  fs_assert(w.finish(), "writing succeeds");
  std::istringstream in(out.str()); BitStreamReader r(in), *p = &r;
  for (unsigned i = 0; i < first; i += 8) { uint8_t b; unsigned k = first - i < 8 ? first - i : 8; fs_assert(p->read_bits(b, (byte_type)k) == k, "reading up to the position"); }
  uint16_t a = 0, b = 0, c = 0, d = 0;
  unsigned na = p->peek_bits(a, (byte_type)width), nb = p->peek_bits(b, (byte_type)width);
  fs_assert(na == nb && a == b, "peeking twice yields the same bits");
  unsigned total = bytes * 8 - first, want = total < width ? total : width;
  fs_assert(na == want, "all available bits up to the requested number are peeked");
  fs_assume(part <= na);
  p->discard_bits((byte_type)part);
  unsigned nc = p->read_bits(c, (byte_type)(width - part)); 
  fs_assert(nc == na - part, "discarding consumes the given number of bits");
  fs_assert(c == low(a, width - part), "the bits after those discarded follow");
  (void)d; fs_reach("peeked");
}
// C04: arbitrary content
FS_ENTRY c04_read() {
  unsigned n = (unsigned)fs_param("n", 3), type = (unsigned)fs_param("type", 0), pick = (unsigned)fs_param("pick", 0);
  std::string s = vh::bytes(n, "stream");
  std::istringstream in(s); BitStreamReader r(in);
  bool valid = n > 0 && ((unsigned char)s[0] >> 3) == 0x1a;
  fs_assert(in.fail() == !valid, "the stream is rejected exactly when the header's magic number is wrong");
  if (n > 0) fs_assert(r.header() == (byte_type)s[0], "the header is the first byte");
  if (!valid) { uint8_t v; fs_assert(r.read_bits(v, 8) == 0, "nothing is read from a rejected stream"); byte_type b; fs_assert(!r.read_byte(b), "nothing is read from a rejected stream"); fs_reach("rejected"); return; }
  unsigned rem = (unsigned char)s[0] & 7; fs_assume(rem == pick);
  unsigned total = n > 1 ? (n - 1) * 8 - pick : 0, pos = 0;
  auto bit = [&](unsigned i) -> uint64_t { return (uint64_t)(((unsigned char)s[1 + i / 8] >> (7 - i % 8)) & 1); };
  for (unsigned step = 0; step < 6; step++) {
    unsigned k = digits[type]; if (step == 0) k = (unsigned)fs_param("first", k);
    Got g = get(r, type, k); unsigned want = total - pos < k ? total - pos : k;
    fs_assert(g.n == want, "as many bits as the header and length allow");
    uint64_t v = 0; for (unsigned i = 0; i < want; i++) v = v << 1 | bit(pos + i);
    if (want) v <<= (k - want);
    fs_assert(g.v == v, "the payload's bits in order and nothing else");
    pos += want;
  }
  fs_assert(pos != total || r.fully_consumed(), "reported as fully consumed");
  fs_reach("read");
}
// a stream buffer that accepts only so many bytes, or cannot be repositioned
struct Failing : std::streambuf {
  std::string data; size_t pos = 0, room; bool seekable;
  Failing(size_t r, bool s) : room(r), seekable(s) {}
  std::streamsize xsputn(const char *p, std::streamsize n) override { std::streamsize k = 0; for (; k < n && room > 0; k++, room--) { if (pos < data.size()) data[pos] = p[k]; else data += p[k]; pos++; } return k; }
  int_type overflow(int_type c) override { char ch = (char)c; return xsputn(&ch, 1) == 1 ? c : traits_type::eof(); }
  pos_type seekpos(pos_type p, std::ios_base::openmode) override { if (!seekable) return pos_type(off_type(-1)); pos = (size_t)off_type(p); return p; }
};
FS_ENTRY c04_fault() {
  unsigned n = (unsigned)fs_param("n", 9);
  unsigned room = fs_u8("room"), bits = fs_u8("bits"); bool seekable = fs_bool("seekable"); fs_assume(((uint64_t)(room <= n + 3) & (uint64_t)(bits <= 8)) != 0);
  std::string data = vh::bytes(n, "data");
  Failing buf(room, seekable); std::ostream out(&buf); BitStreamWriter w(out);
  for (unsigned i = 0; i < n; i++) w.write_byte((byte_type)data[i]);
  w.write_bits((uint8_t)0xff, (byte_type)bits);
  bool ok = w.finish();
  unsigned payload = n + (bits + 7) / 8, writes = 1 + payload + (payload ? 1 : 0);
  fs_assert(ok == (seekable && room >= writes), "finishing reports success exactly when every byte was accepted");
  if (ok) { fs_assert(buf.data.size() == 1 + payload && (unsigned char)buf.data[0] == (0x1a << 3 | ((8 - bits % 8) % 8)), "the stream is complete"); fs_reach("written"); } else fs_reach("failed");
}
