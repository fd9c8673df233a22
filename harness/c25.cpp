// C25: IPv4 addresses.
#include "net.hpp"
using fly::net::IPv4Address;
static const char *const forms[] = {"", "?", "??", "???", "????", "?????", "##########", "###########", "184467440737095###", "#.########", "##.#########", "###.########?", "#.#.#####", "###.###.######", "#.###.####?",
  "###.###.###.###", "#.#.#.???", "#.#.#.#?", "#.#.#.#.?", "##.##?##", "#.18446744073709551###", "0x#?", "#.#.#.####"};
FS_ENTRY c25_parse() {
  std::string s = vh::pattern(forms[fs_param("form", 0)]);
  auto r = IPv4Address::from_string(s);
  uint32_t host = 0; bool ok = ref::ipv4(s, 0, s.size(), host);
  fs_assert(r.has_value() == ok, "parsing accepts exactly dot-decimal addresses");
  if (r) {
    fs_reach("accepted");
    fs_assert(r->host_order() == host, "the host order view is the address denoted");
    fs_assert(r->network_order() == __builtin_bswap32(host), "the network order view is the address denoted");
    fs_observe(r->host_order());
  } else fs_reach("rejected");
  fs_observe(r.has_value());
}
FS_ENTRY c25_print() {
  uint8_t o[4];
  for (int i = 0; i < 4; i++) o[i] = fs_u8("octet");
  IPv4Address a(IPv4Address::address_type{o[0], o[1], o[2], o[3]});
  uint32_t net; memcpy(&net, o, 4);
  fs_assert(a.network_order() == net, "octets are stored in network order");
  fs_assert(a == IPv4Address(net) && !(a != IPv4Address(net)), "the integer and octet constructors agree");
  std::string s = fly::string::format("{}", a);
  std::string want = vh::dec(o[0]) + "." + vh::dec(o[1]) + "." + vh::dec(o[2]) + "." + vh::dec(o[3]);
  fs_assert(vh::same(s, want), "printing yields the four octets");
  auto b = IPv4Address::from_string(s);
  fs_assert(b.has_value() && *b == a, "printing then parsing restores the address");
  vh::observe(s);
  fs_reach("printed");
}
FS_ENTRY c25_order() {
  uint32_t x = fs_u32("x"), y = fs_u32("y");
  IPv4Address a(x), b(y);
  fs_assert((a == b) == (x == y) && (a != b) == (x != y), "addresses are equal exactly when their integers are");
  fs_assert((a < b) + (b < a) + (a == b) == 1 && (a <= b) == !(b < a) && (a > b) == (b < a) && (a >= b) == !(a < b), "addresses are totally ordered");
  fs_assert(IPv4Address() == IPv4Address::in_addr_any() && IPv4Address::in_addr_any().host_order() == 0 && IPv4Address::in_addr_loopback().host_order() == 0x7f000001 && IPv4Address::in_addr_broadcast().host_order() == 0xffffffff, "well-known addresses");
  fs_reach("done");
}
