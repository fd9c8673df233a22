// C16: conversions of JSON values to C++ types.
#include "vh.h"
#include "fly/types/json/json.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using fly::Json; using fly::JsonException;
template <typename F> static bool throws(F f) { try { f(); } catch (const JsonException &) { return true; } catch (...) { fs_assert(false, "only JSON exceptions are thrown"); } return false; }
enum { NUL, STR, OBJ, ARR, BOO, INT, UIN, FLO };
static Json other(unsigned kind) { uint8_t v = fs_u8("v"); switch (kind) { case NUL: return nullptr; case STR: return Json(std::string(1, (char)('a' + (v & 15)))); case OBJ: return {{"k", v}}; case ARR: return {v}; case BOO: return (v & 1) != 0; case INT: return (int)v; case UIN: return v; default: return 2.5; } }
template <typename T> static void tonumber() {
  unsigned kind = fs_choose(8, "kind"); Json j; bool ok = true; T want = 0;
  switch (kind) {
    case INT: { int64_t v = (int64_t)fs_u64("i"); j = v; want = static_cast<T>(v); break; }
    case UIN: { uint64_t v = fs_u64("u"); j = v; want = static_cast<T>(v); break; }
    case FLO: { int16_t q = (int16_t)fs_u16("q"); int lim = std::numeric_limits<T>::digits < 12 ? 8 << std::numeric_limits<T>::digits : 32767; fs_assume(q > -lim && q < lim); if (!std::numeric_limits<T>::is_signed) fs_assume(q > -8); j = (long double)q / 8; // a number of eighths within the type's range
      if (std::is_floating_point_v<T>) want = (T)q / 8; else want = (T)(q / 8); break; }
    default: j = other(kind); ok = false;
  }
  Json was = j; T got = 0; bool threw = throws([&] { got = static_cast<T>(j); });
  fs_assert(threw == !ok, "conversion to a number fails exactly for values that are not numeric"); if (kind != FLO && kind != INT && kind != UIN) fs_assert(j == was, "a conversion does not change the value");
  if (ok) { fs_assert(got == want, "conversion gives the number held"); fs_reach("converted"); } else fs_reach("refused");
}
template <typename T> static void text() { // a string holding a number
  std::string s; uint64_t form = fs_param("form", 0); if (form == 0) s = vh::alphabet((size_t)fs_param("n", 3), "-0123456789 +.ex", "c"); else { if (form == 2) s = "-"; s += vh::dec(fs_param("base", 0)); for (uint64_t k = fs_param("n", 1); k; k--) s += (char)vh::digit("d"); }
  Json j(s); T got = 0; bool threw = throws([&] { got = static_cast<T>(j); });
  size_t i = std::is_signed_v<T> && s.size() && s[0] == '-' ? 1 : 0, start = i; unsigned __int128 v = 0; bool ok = i < s.size();
  for (; i < s.size() && ok; i++) { unsigned char c = (unsigned char)(s[i] - '0'); ok = c <= 9; v = v * 10 + c; }
  unsigned __int128 lim = (unsigned __int128)std::numeric_limits<T>::max() + (start ? 1 : 0); ok = ok && v <= lim;
  fs_assert(threw == !ok, "a string converts exactly when it is a number in range"); if (ok) { fs_assert((uint64_t)(int64_t)got == (start ? -(uint64_t)v : (uint64_t)v), "a string converts to the number it denotes"); fs_reach("converted"); } else fs_reach("refused");
}
#define T8(t, name) FS_ENTRY c16_num_##name() { tonumber<t>(); }
T8(int8_t, i8) T8(uint8_t, u8) T8(int16_t, i16) T8(uint16_t, u16) T8(int32_t, i32) T8(uint32_t, u32) T8(int64_t, i64) T8(uint64_t, u64) T8(float, f32) T8(double, f64) T8(long double, f80)
#define X8(t, name) FS_ENTRY c16_text_##name() { text<t>(); }
X8(int8_t, i8) X8(uint8_t, u8) X8(int16_t, i16) X8(uint16_t, u16) X8(int32_t, i32) X8(uint32_t, u32) X8(int64_t, i64) X8(uint64_t, u64)
template <typename T> static void floats() { // strings that denote small decimals, and strings that do not
  static const struct { const char *t; bool ok; double v; } k[] = {{"0", true, 0}, {"-0.5", true, -0.5}, {"12.25", true, 12.25}, {"1e2", true, 100}, {"", false, 0}, {"1.5x", false, 0}, {"x", false, 0}, {"1e99999", false, 0}, {"1 ", false, 0}, {"--1", false, 0}, {"7E-1", true, 0.7}};
  auto &c = k[fs_choose(sizeof k / sizeof *k, "case")]; Json j(std::string(c.t)); T got = 0; bool threw = throws([&] { got = static_cast<T>(j); }); fs_assert(threw == !c.ok, "a string converts exactly when it is a number in range"); if (c.ok && c.v != 0.7) fs_assert(got == (T)c.v, "a string converts to the number it denotes"); fs_reach("done");
}
FS_ENTRY c16_textreal() { switch (fs_choose(3, "type")) { case 0: floats<float>(); break; case 1: floats<double>(); break; default: floats<long double>(); } }
FS_ENTRY c16_bool() {
  unsigned kind = fs_choose(8, "kind"); Json j; bool want = false;
  switch (kind) {
    case STR: { unsigned n = fs_choose(3, "n"); std::string s; for (unsigned i = 0; i < n; i++) { unsigned char c = fs_u8("c") & 0x1f; s += (char)('A' + c % 26); } j = s; want = n; break; }
    case OBJ: { want = fs_bool("some"); j = fly::json_object_type(); if (want) j["k"] = false; break; }
    case ARR: { want = fs_bool("some"); j = fly::json_array_type(); if (want) j.push_back(nullptr); break; }
    case BOO: want = fs_bool("b"); j = want; break;
    case INT: { int64_t v = (int64_t)fs_u64("i"); j = v; want = v != 0; break; }
    case UIN: { uint64_t v = fs_u64("u"); j = v; want = v != 0; break; }
    case FLO: { uint64_t b = fs_u64("f"); fs_assume((b & INT64_MAX) <= 0x7ff0000000000000ull); double d; memcpy(&d, &b, 8); j = d; want = (b & INT64_MAX) != 0; break; }
    default: break;
  }
  fs_assert(static_cast<bool>(j) == want, "conversion to a boolean"); fs_reach(want ? "true" : "false");
}
template <typename S> static void tostring() {
  using C = typename S::value_type; unsigned kind = fs_choose(8, "kind"); Json j; bool ok = true; S want;
  switch (kind) {
    case STR: { uint32_t cp = vh::codepoint("cp"); std::string u8 = vh::spec_encode<char>(cp); fs_assume(cp >= 0x20 && cp != '"' && cp != '\\'); j = u8; want = vh::spec_encode<C>(cp); break; }
    case INT: { int v = fs_u8("i"); j = -v - 100; for (char c : "-" + vh::dec((uint64_t)v + 100)) want += (C)c; break; }
    case UIN: { unsigned v = fs_u8("u"); j = v + 9900; for (char c : vh::dec((uint64_t)v + 9900)) want += (C)c; break; }
    case FLO: j = 2.5; want = {'2', '.', '5'}; break;
    default: j = other(kind); ok = false;
  }
  S got; bool threw = throws([&] { got = static_cast<S>(j); }); fs_assert(threw == !ok, "conversion to a string fails exactly for values that are neither strings nor numbers");
  if (ok) { fs_assert(vh::same(got, want), "conversion to a string gives the text"); fs_reach("converted"); } else fs_reach("refused");
}
FS_ENTRY c16_str_char() { tostring<std::string>(); }
FS_ENTRY c16_str_char8() { tostring<std::u8string>(); }
FS_ENTRY c16_str_char16() { tostring<std::u16string>(); }
FS_ENTRY c16_str_char32() { tostring<std::u32string>(); }
FS_ENTRY c16_str_wchar() { tostring<std::wstring>(); }
template <typename A> static std::vector<long> list(const A &a) { std::vector<long> r; for (auto &x : a) r.push_back((long)x); return r; }
template <typename A> static A conv(const Json &j, bool &threw) { A r{}; threw = throws([&] { r = static_cast<A>(j); }); return r; }
FS_ENTRY c16_array() {
  unsigned n = fs_choose(4, "n"), bad = fs_choose(n + 1, "bad"); bool isbad = bad < n && fs_bool("has"); Json j = fly::json_array_type(); std::vector<long> m;
  for (unsigned i = 0; i < n; i++) { uint8_t v = fs_u8("v"); if (isbad && i == bad) { j.push_back(nullptr); m.push_back(0); } else { j.push_back(v); m.push_back(v); } }
  bool t; auto ordered = [&](std::vector<long> got) { fs_assert(t == isbad, "array conversion fails exactly when an element does not convert"); if (!t) { fs_assert(got.size() == m.size(), "every element is converted"); for (size_t i = 0; i < m.size() && i < got.size(); i++) fs_assert(got[i] == m[i], "elements keep their order and values"); } };
  switch (fs_choose(9, "type")) {
    case 0: ordered(list(conv<std::vector<int>>(j, t))); break; case 1: ordered(list(conv<std::list<uint16_t>>(j, t))); break; case 2: ordered(list(conv<std::deque<long>>(j, t))); break; case 3: ordered(list(conv<std::forward_list<uint8_t>>(j, t))); break;
    case 4: case 5: { bool multi = fs_choose(2, "multi"); std::vector<long> got = multi ? list(conv<std::multiset<int>>(j, t)) : list(conv<std::set<int>>(j, t)); fs_assert(t == isbad, "set conversion fails exactly when an element does not convert"); if (!t) { if (multi) fs_assert(got.size() == m.size(), "every element is converted"); for (size_t i = 0; i + 1 < got.size(); i++) fs_assert(multi ? got[i] <= got[i + 1] : got[i] < got[i + 1], "sets are ordered"); for (long x : m) { uint64_t c = 0; for (long y : got) c |= (uint64_t)(x == y); fs_assert(c != 0, "every element is in the set"); } for (long y : got) { uint64_t c = 0; for (long x : m) c |= (uint64_t)(x == y); fs_assert(c != 0, "nothing else is in the set"); } } break; }
    case 6: { std::array<int, 2> a = {7, 7}; t = throws([&] { a = static_cast<std::array<int, 2>>(j); }); fs_assert(t == (isbad && bad < 2), "only elements that fit are converted"); if (!t) for (size_t i = 0; i < 2; i++) fs_assert(a[i] == (i < m.size() ? m[i] : 0), "extra elements are dropped, missing ones are zero"); break; }
    case 7: { auto a = conv<std::vector<bool>>(j, t); fs_assert(!t && a.size() == m.size(), "every element converts to a boolean"); for (size_t i = 0; i < m.size(); i++) fs_assert(a[i] == (m[i] != 0), "elements convert to booleans"); break; }
    default: { Json c = j; fly::json_array_type a = static_cast<fly::json_array_type>(std::move(c)); fs_assert(c.is_null() && a.size() == m.size(), "moving an array out"); for (size_t i = 0; i < m.size(); i++) fs_assert(isbad && i == bad ? a[i].is_null() : (long)a[i] == m[i], "elements keep their order and values"); break; }
  }
  fs_reach("done");
}
template <typename O> static void toobject() {
  using K = typename O::key_type; using C = typename K::value_type; uint32_t cp = vh::codepoint("cp"); fs_assume(cp >= 0x20 && cp != '"' && cp != '\\' && cp != 'z'); uint8_t v = fs_u8("v"), w = fs_u8("w"); bool bad = fs_bool("bad");
  Json j; j[vh::spec_encode<char>(cp)] = v; j["z"] = w; if (bad) j["z"] = nullptr; O o; bool t = throws([&] { o = static_cast<O>(j); }); fs_assert(!t || bad, "object conversion"); if (!bad) { fs_assert(o.size() == 2, "every element is converted"); auto a = o.find(vh::spec_encode<C>(cp)); auto z = o.find(K(1, (C)'z')); fs_assert(a != o.end() && z != o.end(), "keys are converted"); fs_assert((long)(typename O::mapped_type)a->second == v && (long)z->second == w, "values are converted"); } fs_reach("done");
}
// a map of Json converts; values that must be converted themselves do so when read
FS_ENTRY c16_object() { switch (fs_choose(4, "type")) { case 0: toobject<std::map<std::string, Json>>(); break; case 1: toobject<std::multimap<std::u16string, Json>>(); break; case 2: toobject<std::map<std::u32string, Json>>(); break; default: toobject<std::map<std::wstring, Json>>(); } }
FS_ENTRY c16_wrong() { // conversions to null, arrays, objects, and moves
  unsigned kind = fs_choose(8, "kind"); Json j = other(kind), was = j; bool applies = false, threw = false, moved = false;
  switch (fs_choose(8, "to")) {
    case 0: applies = kind == NUL; threw = throws([&] { (void)static_cast<fly::json_null_type>(j); }); break;
    case 1: applies = kind == ARR; threw = throws([&] { (void)static_cast<std::vector<int>>(j); }); break;
    case 2: applies = kind == ARR; threw = throws([&] { (void)static_cast<std::array<int, 1>>(j); }); break;
    case 3: applies = kind == OBJ; threw = throws([&] { (void)static_cast<std::map<std::string, Json>>(j); }); break;
    case 4: moved = applies = kind == ARR; threw = throws([&] { (void)static_cast<fly::json_array_type>(std::move(j)); }); break;
    case 5: moved = applies = kind == OBJ; threw = throws([&] { (void)static_cast<fly::json_object_type>(std::move(j)); }); break;
    case 6: moved = applies = kind == STR; threw = throws([&] { std::string s = static_cast<fly::json_string_type>(std::move(j)); fs_assert(s == (std::string)was, "moving a string out"); }); break;
    default: applies = kind == STR || kind >= INT; threw = throws([&] { (void)static_cast<std::u8string>(j); }); break;
  }
  fs_assert(threw == !applies, "a conversion fails exactly when it does not apply"); if (moved) fs_assert(j.is_null(), "moving out leaves null"); else fs_assert(j == was && j.is_null() == was.is_null(), "the value is unchanged"); fs_reach(threw ? "refused" : "converted");
}
