// C12/C13: JSON strings, and serializing followed by parsing.
#include "jsonspec.hpp"
#include "fly/parser/json_parser.hpp"
using fly::Json; using fly::parser::JsonParser;
// the text inside the quotes as JSON defines it
static bool inner(const std::string &t, std::string &out) { jspec::Reader r(t); while (r.i < t.size()) if (t[r.i] == '"' || !r.one(out)) return false; return true; }
template <typename S> static std::optional<Json> make(const S &t) {
  try { return Json(t); } catch (const fly::JsonException &) { return std::nullopt; } catch (...) { fs_assert(false, "only JSON exceptions are thrown"); }
  return std::nullopt;
}
template <typename S> static void construct(const S &t) {
  std::string u8, want; bool ok = vh::spec_valid(t);
  if (ok) { for (size_t i = 0; i < t.size();) { vh::Dec d = vh::spec_decode(t.data() + i, t.size() - i); u8 += vh::spec_encode<char>(d.cp); i += d.len; } ok = inner(u8, want); }
  auto j = make(t);
  fs_assert(j.has_value() == ok, "construction succeeds exactly on a valid JSON string");
  if (!j) { fs_reach("rejected"); } else { fs_assert(j->is_string() && vh::same((std::string)*j, want), "the string holds the decoded text"); fs_reach("accepted"); }
  // as an object's key
  Json o = fly::json_object_type(); bool threw = false;
  try { o[t] = 1; } catch (const fly::JsonException &) { threw = true; }
  fs_assert(threw == !ok, "a key is accepted exactly when it is a valid JSON string");
  fs_assert(o.size() == (ok ? 1u : 0u), "a rejected key leaves the object unchanged");
  if (ok) fs_assert(vh::same(o.begin().key(), want), "the key holds the decoded text");
}
FS_ENTRY c13_bytes() { construct(vh::bytes((size_t)fs_param("n", 2), "t")); }
static const char *shapes[] = {"\\u$$$$", "\\u$$?$", "\\ud$3d\\ud$0$", "\\ud83d?$$$$$", "\\ud83d\\?dc00", "a\\?b", "\\??", "\\n\\t\\\\\\\"?", "\xc3\xa9?\\u00e9", "\xf0\x9f\x8d\x95?", "?\\ud83c\\udf55?", "\\u00$$\\u0$0$", "\\u$$$", "\\ud83d\\u$$$", "\xe2\x82?\\n", "\\u+???", "\\u-00$"};
FS_ENTRY c13_shape() { construct(vh::pattern(shapes[fs_param("form", 0)])); }
FS_ENTRY c13_char8() { construct(vh::units<char8_t>((size_t)fs_param("n", 2), "u")); }
FS_ENTRY c13_char16() { construct(vh::units<char16_t>((size_t)fs_param("n", 2), "u")); }
FS_ENTRY c13_char32() { construct(vh::units<char32_t>((size_t)fs_param("n", 2), "u")); }
FS_ENTRY c13_wchar() { construct(vh::units<wchar_t>((size_t)fs_param("n", 2), "u")); }
// --- serializing
static std::string jtext(const std::string &v) { // some JSON text for a string value
  std::string r; static const char *h = "0123456789abcdef";
  for (char c : v) { bool special = ((uint64_t)((unsigned char)c < 0x20) | (uint64_t)(c == '"') | (uint64_t)(c == '\\')) != 0; if (special) { r += "\\u00"; r += h[((unsigned char)c >> 4) & 15]; r += h[c & 15]; } else r += c; }
  return r;
}
// k codepoints: the first is one of the 256 from `base` on, or any when there is no base
static std::string text(size_t k) {
  std::string s; uint64_t base = fs_param("base", ~0ull);
  for (size_t i = 0; i < k; i++) { uint32_t cp; if (base == ~0ull) cp = vh::codepoint("cp"); else { cp = (uint32_t)base + fs_u8("cp"); fs_assume(vh::scalar(cp)); base = fs_param("next", base); } s += vh::spec_encode<char>(cp); }
  return s;
}
static void round(const Json &j, const jspec::Node *shape) {
  std::string t = j.serialize();
  vh::observe(t);
  jspec::Reader r(t, 4); jspec::Node n; fs_assert(r.text(n), "the serialized text is valid JSON");
  fs_assert(jspec::match(n, j), "the serialized text denotes the value");
  if (shape) fs_assert(jspec::match(*shape, j), "the value is the one built");
  JsonParser p(JsonParser::Features::AllowAnyType); auto back = p.parse_string(t);
  fs_assert(back.has_value(), "the serialized text can be parsed");
  fs_assert(*back == j, "parsing gives back an equal value"); fs_assert(jspec::match(n, *back), "of the same types");
  fs_assert(back->serialize() == t, "serializing again gives the same text");
  fs_reach("round");
}
FS_ENTRY c12_string() { std::string v = text((size_t)fs_param("n", 1)); Json j(jtext(v)); jspec::Node n; n.t = jspec::Str; n.str = v; round(j, &n); }
FS_ENTRY c12_key() { std::string k = text((size_t)fs_param("n", 1)), l = fs_param("two", 0) ? text(1) : std::string("z"); Json j; j[jtext(k)] = 1u; j[jtext(l)] = nullptr; j["n"] = Json(jtext(k)); round(j, nullptr); }
FS_ENTRY c12_number() {
  bool neg = fs_param("neg", 0) != 0; uint64_t x = fs_param("mask", 0xff) > 0xff ? fs_u16("v") & fs_param("mask", 0xff) : fs_u8("v"), v = fs_param("base", 0) + x, bits = neg ? (0 - fs_param("base", 0)) - x : v;
  Json j = neg ? Json((int64_t)bits) : Json(bits); jspec::Node n; n.t = neg ? jspec::Int : jspec::Uint; n.num = bits;
  std::string t = j.serialize(); jspec::Reader r(t, 4); jspec::Node m; fs_assert(r.text(m), "the serialized number is valid JSON");
  fs_assert(neg && v == 0 ? m.num == 0 : jspec::match(m, j), "the serialized number denotes the value");
  if (fs_param("wide", 0)) { fs_reach("round"); return; }
  JsonParser p(JsonParser::Features::AllowAnyType); auto back = p.parse_string(t); fs_assert(back && *back == j, "parsing gives back an equal number"); 
  fs_assert(v == 0 || back->is_signed_integer() == neg, "of the same type"); fs_reach("round");
}
// any nesting of up to `depth` levels and two children each, with small leaves
static Json any(unsigned depth) {
  unsigned k = fs_choose(depth ? 8 : 6, "kind");
  switch (k) {
    case 0: return nullptr; case 1: return true; case 2: return false; case 3: return Json((uint64_t)7); case 4: return Json((int64_t)-12); 
    case 5: { std::string s(1, (char)(fs_u8("c") & 0x7f)); return Json(jtext(s)); }
    case 6: { Json a = fly::json_array_type(); unsigned n = fs_choose(3, "count"); for (unsigned i = 0; i < n; i++) a.push_back(any(depth - 1)); return a; }
    default: { Json o = fly::json_object_type(); unsigned n = fs_choose(3, "count"); for (unsigned i = 0; i < n; i++) { std::string key(1, (char)(fs_u8("key") & 0x7f)); o[jtext(key)] = any(depth - 1); } return o; }
  }
}
FS_ENTRY c12_nested() { round(any((unsigned)fs_param("depth", 1)), nullptr); }
// every codepoint there is
FS_ENTRY c12_every() {
  uint32_t cp = fs_choose(0x1100, "plane and row") << 8; cp += fs_u8("cp"); fs_assume(vh::scalar(cp));
  std::string v = vh::spec_encode<char>(cp); Json j(jtext(v)); jspec::Node n; n.t = jspec::Str; n.str = v;
  std::string t = j.serialize(); jspec::Reader r(t, 4); jspec::Node m; fs_assert(r.text(m) && jspec::match(m, j) && jspec::match(n, j), "the serialized text is valid JSON that denotes the value");
  JsonParser p(JsonParser::Features::AllowAnyType); auto back = p.parse_string(t); fs_assert(back && *back == j, "parsing gives back an equal value"); fs_reach("round");
}
