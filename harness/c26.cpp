// C26: IPv6 addresses.
#include "net.hpp"
using fly::net::IPv6Address;
static const char *const forms[] = {"", "?", "??", "???", "????", "?????",
  "1:2:3:4:5:6:7:???", "1:2:3:4:5:6:7??", "::???", "1::???", "1:2:3:4:5:6::??", "1:2:3:4:5:6:7::?", "::1:2:3:4:5:6:7?", "$$$$:$$$$:0:0:0:0:0:$", "1:2:3:4:5:6:7:8?", "1:2:3:4:5:6:7:8??", "?1:2:3:4:5:6:7:8",
  "1::2:?:?:3", "1:2::3?4::5", "::$$$$$", "1:2:3:4?5:6:7:8", "$::$$:$$$:0", "??::1", "1:2:3:4:5:6:$$$$:$$$$?", "::??2:3:4:5:6:7:8", "1:2:3::?:?:7:8", "::10000000000000$$$$", "1::00012"};
FS_ENTRY c26_parse() {
  std::string s = vh::pattern(forms[fs_param("form", 0)]);
  auto r = IPv6Address::from_string(s);
  uint8_t want[16]; bool ok = ref::ipv6(s, 0, s.size(), want);
  fs_assert(r.has_value() == ok, "parsing accepts exactly IPv6 addresses");
  if (r) {
    fs_reach("accepted");
    uint8_t got[16]; r->copy(got); uint64_t d = 0;
    for (int i = 0; i < 16; i++) { d |= (uint64_t)(got[i] ^ want[i]); fs_observe(got[i]); }
    fs_assert(d == 0, "parsing yields the address denoted");
  } else fs_reach("rejected");
  fs_observe(r.has_value());
}
// every pattern of zero groups, symbolic values in `sym` of the other groups
FS_ENTRY c26_print() {
  unsigned zeros = (unsigned)fs_param("zeros", 256) < 256 ? (unsigned)fs_param("zeros", 256) : fs_choose(256, "zeros"), at = (unsigned)fs_param("at", 0);
  uint8_t o[16];
  for (unsigned i = 0; i < 8; i++) {
    uint16_t g = zeros >> i & 1 ? 0 : i == at ? (uint16_t)(fs_u8("g") << 8 | fs_u8("g")) : (uint16_t)(0x1a2bu >> (4 * (i & 3)));
    o[2 * i] = (uint8_t)(g >> 8); o[2 * i + 1] = (uint8_t)g;
  }
  IPv6Address a(o);
  std::string s = fly::string::format("{}", a);
  uint8_t w[16];
  fs_assert(ref::ipv6(s, 0, s.size(), w), "the printed text is an IPv6 address");
  uint64_t d = 0; for (int i = 0; i < 16; i++) d |= (uint64_t)(w[i] ^ o[i]);
  fs_assert(d == 0, "the printed text denotes the address");
  auto b = IPv6Address::from_string(s);
  fs_assert(b.has_value() && *b == a, "printing then parsing restores the address");
  vh::observe(s);
  fs_reach("printed");
}
FS_ENTRY c26_order() {
  IPv6Address::address_type x{}, y{};
  for (int i : {0, 1, 7, 14, 15}) { x[i] = fs_u8("x"); y[i] = fs_u8("y"); }
  IPv6Address a(x), b(y);
  uint64_t d = 0; for (int i = 0; i < 16; i++) d |= (uint64_t)(x[i] ^ y[i]);
  fs_assert((a == b) == (d == 0) && (a != b) == (d != 0), "addresses are equal exactly when their octets are");
  fs_assert((a < b) + (b < a) + (a == b) == 1 && (a <= b) == !(b < a) && (a > b) == (b < a) && (a >= b) == !(a < b), "addresses are totally ordered");
  uint8_t o[16]; IPv6Address::in_addr_loopback().copy(o); uint64_t z = 0; for (int i = 0; i < 15; i++) z |= o[i];
  fs_assert(z == 0 && o[15] == 1 && IPv6Address() == IPv6Address::in_addr_any(), "well-known addresses");
  fs_reach("done");
}
