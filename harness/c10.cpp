// C10/C11: the JSON parser.
#include "jsonspec.hpp"
#include "fly/parser/json_parser.hpp"
using fly::parser::JsonParser;
static void both(const std::string &t, unsigned features) {
  jspec::Reader r(t, features); jspec::Node n; bool want = r.text(n);
  JsonParser p((JsonParser::Features)features);
  std::optional<fly::Json> got;
  try { got = p.parse_string(t); } catch (...) { fs_assert(false, "parsing never throws"); }
  fs_observe(got.has_value());
  if (!want) { fs_reach("rejected"); fs_assert(!got, "a text that is not acceptable JSON is rejected"); return; }
  fs_reach("accepted");
  fs_assert(got.has_value(), "acceptable JSON is accepted");
  fs_assert(jspec::match(n, *got), "the value is the one the text denotes");
}
static const char *shapes[] = {
  "", "[?]", "[??]", "[???]", "{\"a\":?}", "{\"a\":??}", "{\"?\":1}", "{\"a\"?:1}", "{\"a\":1?}", "{\"a\":1??", "[\"??\"]", "[\"\\?\"]", // 0-11
  "[\"\\u$$$$\"]", "[\"\\ud$3d\\ud$0$\"]", "[1,?]", "[1?2]", "[[?]?]", "{?}", "{\"a\":1,?}", "{\"a\":1,\"?\":2}", "[tru?]", "[nul??", "[fals?]", // 12-22
  "[-?]", "[-??]", "[1.?]", "[1e??]", "[1.5e?]", "[0?]", "[1844674407370955161#]", "[-922337203685477580#]", "[18446744073709551615#]", "?[]", "[]?", "{}?", "[1]??", // 23-35
  "[\"\\u00$?\"]", "[\"\\ud83d?u$$$$\"]", "[\"\xe2??\"]", "[\"\xf0\x9f??\"]", "\"??\"", "??", "true?", // 36-42
};
FS_ENTRY c10_shape() { both(vh::pattern(shapes[fs_param("form", 0)]), (unsigned)fs_param("features", 0)); }
FS_ENTRY c10_bytes() { both(vh::bytes((size_t)fs_param("n", 2), "t"), (unsigned)fs_param("features", 0)); }
// all texts over the characters the grammar is made of
FS_ENTRY c10_tokens() { unsigned f = (unsigned)fs_param("form", 0); static const char *abc[] = {"[],1 ", "{}:,\"a", "\"\\u0d8a", "-+.eE019"}; both((f == 3 ? "[" : "") + vh::alphabet((size_t)fs_param("n", 4), abc[f], "t") + (f == 3 ? "]" : ""), (unsigned)fs_param("features", f == 2 ? 4 : 0)); }
// comments and trailing commas
static const char *ext[] = { "[1?2]", "[?1]", "[1??2]", "[1,??]", "[1??]", "??[]", "[]??", "[]???", "{\"a\"??:1}", "{\"a\":??1}", "{??}", "{??\"a\":1}", "{\"a\":1,??}", "[/*??]", "[/*?*/1]", "[/*??*/]", "[//??1]", "[//?\n?]", "[1,/?2]", "[1/?/2]", "{\"a\":1/*?*/?\"b\":2}", "[[1,?],?]", "[1,,?]", "{,?}", "[,?]", "{\"a\":1?,}", "[1,/**/?", "/?/[]", "[]/*?", "[]//?", "{\"a\"/*?*/:1}", "[\"/*?*/\"]" };
FS_ENTRY c11_shape() { unsigned f = (unsigned)fs_param("features", 8); if (f == 8) f = fs_choose(8, "features"); both(vh::pattern(ext[fs_param("form", 0)]), f); }
FS_ENTRY c11_tokens() { both("[1" + vh::alphabet((size_t)fs_param("n", 4), "/*,\n] 2", "t"), (unsigned)fs_param("features", 3)); }
// a text that is valid without extensions means the same with any of them
FS_ENTRY c11_same() {
  std::string t = vh::pattern(shapes[fs_param("form", 1)]);
  JsonParser strict; auto a = strict.parse_string(t); if (!a) { fs_reach("rejected"); return; }
  JsonParser p((JsonParser::Features)fs_choose(8, "features")); auto b = p.parse_string(t);
  fs_assert(b && *a == *b && a->is_object() == b->is_object(), "extensions do not change what is already valid"); fs_reach("accepted");
}
// other encodings of the same text
template <typename C> static void wide() {
  std::basic_string<C> t; for (char c : std::string("[\"")) t += (C)c;
  std::basic_string<C> mid = vh::units<C>((size_t)fs_param("n", 1), "u"); t += mid; t += (C)'"'; t += (C)']';
  JsonParser p; auto got = p.parse_string(t);
  fs_assert(!got || vh::spec_valid(mid), "malformed text is rejected");
  if (!vh::spec_valid(mid)) { fs_reach("malformed"); return; }
  std::string u8; for (size_t i = 0; i < t.size();) { vh::Dec d = vh::spec_decode(t.data() + i, t.size() - i); u8 += vh::spec_encode<char>(d.cp); i += d.len; }
  jspec::Reader r(u8); jspec::Node n; bool want = r.text(n);
  fs_assert(want == got.has_value(), "accepted exactly when the text is JSON");
  if (want) { fs_assert(jspec::match(n, *got), "the value is the one the text denotes"); fs_reach("accepted"); }
}
FS_ENTRY c10_wide_char8() { wide<char8_t>(); }
FS_ENTRY c10_wide_char16() { wide<char16_t>(); }
FS_ENTRY c10_wide_char32() { wide<char32_t>(); }
FS_ENTRY c10_wide_wchar() { wide<wchar_t>(); }
static void unit(std::string &s, uint32_t v, unsigned size, bool big) { for (unsigned i = 0; i < size; i++) s += (char)(v >> 8 * (big ? size - 1 - i : i)); }
FS_ENTRY c10_file() {
  unsigned form = (unsigned)fs_param("form", 0); std::string path = std::string(vf_root()) + "/in.json", data, text;
  JsonParser p;
  if (form == 0 || form == 1) { // plain, or with a byte order mark
    text = vh::pattern((const char *[]){"[?]", "[\"??\"]", "{\"a\":?}", "????"}[fs_param("text", 0)]); data = (form ? "\xef\xbb\xbf" : "") + text;
    if (form == 0) { for (size_t i = 0; i < text.size() && i < 1; i++) fs_assume(((unsigned char)text[0] != 0xef) & ((unsigned char)text[0] != 0xfe) & ((unsigned char)text[0] != 0xff) & (text[0] != 0)); }
  } else {
    bool big = form & 1; unsigned size = form < 4 ? 2 : 4; unit(data, 0xfeff, size, big);
    std::u32string t = U"[\""; t += (char32_t)vh::codepoint("cp"); t += U"\"]";
    for (char32_t c : t) { text += vh::spec_encode<char>(c); if (size == 4 || c < 0x10000) unit(data, c, size, big); else { unit(data, 0xd800 + ((c - 0x10000) >> 10), 2, big); unit(data, 0xdc00 + ((c - 0x10000) & 0x3ff), 2, big); } }
  }
  vf_put(path.c_str(), data.data(), data.size());
  jspec::Reader r(text); jspec::Node n; bool want = r.text(n); auto got = p.parse_file(path);
  fs_assert(want == got.has_value(), "a file is accepted exactly when its text is JSON");
  if (want) { fs_assert(jspec::match(n, *got), "the value is the one the text denotes"); fs_reach("accepted"); } else fs_reach("rejected");
  fs_assert(!p.parse_file(std::string(vf_root()) + "/none.json"), "a missing file is an error");
}
