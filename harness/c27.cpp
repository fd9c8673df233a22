// C27: endpoints.
#include "net.hpp"
using fly::net::Endpoint; using fly::net::IPv4Address; using fly::net::IPv6Address;
static const char *const forms4[] = {"", "?", "??", "???", "????", "#.#.#.#:?????", "#:######", "#?######", "#.#.#.#??", "127.0.0.1:1844674407370955###", "?:80", "1:2:#?", "#.???:1", "##.#####:6553#", "[::1]:80", "1:0000######"};
static const char *const forms6[] = {"", "?", "??", "???", "????", "[::1]:?????", "[::1]??0", "?::1?:80", "[::?]:####", "[???]:1", "::1:80", "[1:2:3:4:5:6:7:8]:6553#", "[::1]:1844674407370955###", "[::]?#", "[[::]?:1", "[]:#", "[::1]:0000######"};
template <typename A> static void parse(const char *const *forms) {
  std::string s = vh::pattern(forms[fs_param("form", 0)]);
  auto r = Endpoint<A>::from_string(s);
  constexpr bool six = std::is_same_v<A, IPv6Address>;
  uint64_t port = 0; bool ok = false; uint32_t host = 0; uint8_t oct[16];
  size_t c = s.size(); for (size_t i = s.size(); i-- > 0;) if (s[i] == ':') { c = i; break; }
  if (c < s.size() && ref::number(s, c + 1, s.size(), port) && port <= 65535) {
    if constexpr (six) ok = c >= 2 && s[0] == '[' && s[c - 1] == ']' && ref::ipv6(s, 1, c - 1, oct);
    else ok = ref::ipv4(s, 0, c, host);
  }
  fs_assert(r.has_value() == ok, "parsing accepts exactly an address, one colon and a port");
  if (r) {
    fs_reach("accepted");
    fs_assert(r->port() == port, "the port is the one denoted");
    if constexpr (six) { uint8_t g[16]; r->address().copy(g); uint64_t d = 0; for (int i = 0; i < 16; i++) d |= (uint64_t)(g[i] ^ oct[i]); fs_assert(d == 0, "the address is the one denoted"); }
    else fs_assert(r->address().host_order() == host, "the address is the one denoted");
    fs_observe(r->port());
  } else fs_reach("rejected");
  fs_observe(r.has_value());
}
FS_ENTRY c27_parse4() { parse<IPv4Address>(forms4); }
FS_ENTRY c27_parse6() { parse<IPv6Address>(forms6); }
template <typename A> static void print(const A &a) {
  uint16_t port = fs_u16("port");
  Endpoint<A> e(a, port);
  fs_assert(e.address() == a && e.port() == port, "an endpoint holds its address and port");
  fs_assert(e.is_ipv6() == std::is_same_v<A, IPv6Address> && e.is_ipv4() == std::is_same_v<A, IPv4Address>, "the version is that of the address");
  std::string s = fly::string::format("{}", e);
  std::string want = std::is_same_v<A, IPv6Address> ? "[" + fly::string::format("{}", a) + "]:" : fly::string::format("{}", a) + ":";
  want += vh::dec(port);
  fs_assert(vh::same(s, want), "printing yields address, colon and port");
  auto b = Endpoint<A>::from_string(s);
  fs_assert(b.has_value() && *b == e, "printing then parsing restores the endpoint");
  vh::observe(s);
  fs_reach("printed");
}
FS_ENTRY c27_print4() { IPv4Address::address_type o{192, 0, 2, 1}; for (int k = 0; k < 4; k++) if (fs_param("at", 0) == (uint64_t)k) o[k] = fs_u8("octet"); print(IPv4Address(o)); }
FS_ENTRY c27_print6() { IPv6Address::address_type o{}; unsigned z = fs_choose(4, "shape"); o[15] = fs_u8("octet"); if (z & 1) o[0] = 0x20; if (z & 2) o[8] = 0xa; print(IPv6Address(o)); }
FS_ENTRY c27_order() {
  uint32_t x = fs_u32("x"), y = fs_u32("y"); uint16_t p = fs_u16("p"), q = fs_u16("q");
  Endpoint<IPv4Address> a(IPv4Address(x), p), b(IPv4Address(y), q);
  fs_assert((a == b) == (x == y && p == q) && (a != b) == !(a == b), "endpoints are equal exactly when address and port are");
  fs_assert((a < b) + (b < a) + (a == b) == 1 && (a <= b) == !(b < a) && (a > b) == (b < a) && (a >= b) == !(a < b), "endpoints are totally ordered");
  fs_reach("done");
}
