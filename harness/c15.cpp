// C15: JSON containers against reference containers.
#include "vh.h"
#include "fly/types/json/json.hpp"
#include <functional>
#include <list>
#include <map>
using fly::Json; using fly::JsonException;
typedef int (*Nothing)();
static const int Null = -1; // model of a null element
static uint8_t val() { return (uint8_t)(100 + (fs_u8("v") & 127)); } // always three digits: the text of an exception shows the value
static void same1(const Json &j, int want) { if (want == Null) fs_assert(j.is_null(), "an added element is null"); else { fs_assert(j.is_unsigned_integer(), "an element keeps its type"); fs_assert(static_cast<uint64_t>(j) == (uint64_t)want, "an element has the value the container holds"); } }
static void check(const Json &j, const std::vector<int> &m) {
  fs_assert(j.is_array() && j.size() == m.size() && j.empty() == m.empty(), "size of the array"); fs_assert(j.capacity() >= m.size(), "capacity is at least the size");
  for (size_t i = 0; i < m.size(); i++) { same1(j.at(i), m[i]); same1(j[i], m[i]); }
  size_t n = 0; for (auto it = j.begin(); it != j.end(); ++it) { if (n < m.size()) same1(*it, m[n]); n++; } fs_assert(n == m.size(), "iteration visits every element");
  n = m.size(); for (auto it = j.rbegin(); it != j.rend(); ++it) { if (n) same1(*it, m[n - 1]); n--; } fs_assert(n == 0, "reverse iteration visits every element");
  if (!m.empty()) { same1(j.front(), m.front()); same1(j.back(), m.back()); }
}
template <typename F> static bool throws(F f) { try { f(); } catch (const JsonException &) { return true; } catch (...) { fs_assert(false, "only JSON exceptions are thrown"); } return false; }
static bool step(Json &j, std::vector<int> &m) {
  size_t n = m.size(); unsigned i = fs_choose((unsigned)n + 2, "i"); auto at = [&](size_t k) { return j.begin() + (ptrdiff_t)std::min(k, n); };
  bool in = i < n, ok = i <= n; uint8_t v = val(); bool threw;
  switch (fs_choose(24, "op")) {
    case 0: if (i) return false; j.push_back(Json(v)); m.push_back(v); break;
    case 1: { if (i) return false; Json x = v; j.push_back(x); m.push_back(v); same1(x, v); break; }
    case 2: { if (i) return false; Json &r = j.emplace_back(v); m.push_back(v); same1(r, v); break; }
    case 3: { if (!ok) return false; Json x = v; auto it = j.insert(at(i), x); m.insert(m.begin() + i, v); same1(*it, v); fs_assert(it - j.begin() == (ptrdiff_t)i, "insert returns the position of the element"); break; }
    case 4: { if (!ok) return false; auto it = j.insert(at(i), Json(v)); m.insert(m.begin() + i, v); same1(*it, v); fs_assert(it - j.begin() == (ptrdiff_t)i, "insert returns the position of the element"); break; }
    case 5: { if (!ok) return false; unsigned k = fs_choose(3, "count"); auto it = j.insert(at(i), (Json::size_type)k, Json(v)); m.insert(m.begin() + i, k, v); fs_assert(it - j.begin() == (ptrdiff_t)i, "insert returns the position of the first element"); break; }
    case 6: { if (!ok) return false; auto it = j.insert(at(i), {Json(v), Json(nullptr)}); int x[] = {v, Null}; m.insert(m.begin() + i, x, x + 2); fs_assert(it - j.begin() == (ptrdiff_t)i, "insert returns the position of the first element"); break; }
    case 7: { if (!ok) return false; Json o = {1u, v, 3u}; unsigned a = fs_choose(4, "from"); auto it = j.insert(at(i), o.cbegin() + a, o.cend()); int x[] = {1, v, 3}; m.insert(m.begin() + i, x + a, x + 3); fs_assert(it - j.begin() == (ptrdiff_t)i, "insert returns the position of the first element"); check(o, std::vector<int>{1, v, 3}); break; }
    case 8: threw = throws([&] { auto it = j.erase(at(i)); fs_assert(it - j.begin() == (ptrdiff_t)i, "erase returns the position after the element"); }); fs_assert(threw == !in, "erasing fails exactly at the end"); if (in) m.erase(m.begin() + i); break;
    case 9: { if (!ok) return false; unsigned k = fs_choose((unsigned)(n - i) + 1, "count"); auto it = j.erase(at(i), at(i + k)); m.erase(m.begin() + i, m.begin() + i + k); fs_assert(it - j.begin() == (ptrdiff_t)i, "erase returns the position after the elements"); break; }
    case 10: threw = throws([&] { j.erase((Json::size_type)i); }); fs_assert(threw == !in, "erasing by index fails exactly beyond the end"); if (in) m.erase(m.begin() + i); break;
    case 11: if (i) return false; threw = throws([&] { j.pop_back(); }); fs_assert(threw == m.empty(), "removing the last element fails exactly when there is none"); if (n) m.pop_back(); break;
    case 12: j[(Json::size_type)i] = v; if (i >= n) m.resize(i + 1, Null); m[i] = v; break;
    case 13: threw = throws([&] { j.at((Json::size_type)i) = v; }); fs_assert(threw == !in, "at() fails exactly beyond the end"); if (in) m[i] = v; break;
    case 14: j.resize(i); m.resize(i, Null); break;
    case 15: if (i) return false; j.clear(); m.clear(); break;
    case 16: { if (i) return false; Json o = {v, 7u}; o.swap(j); check(o, m); m = {v, 7}; break; }
    case 17: { if (i) return false; std::vector<Json> o = {Json(v), Json(9u), Json(8u)}; j.swap(o); fs_assert(o.size() == n, "swap exchanges the contents"); for (size_t k = 0; k < n; k++) same1(o[k], m[k]); m = {v, 9, 8}; break; }
    case 18: { if (i) return false; Json c = j; Json d = std::move(c); fs_assert(c.is_null(), "a moved-from value is null"); check(d, m); d.push_back(v); check(j, m); j = d; m.push_back(v); check(d, m); break; }
    case 19: if (i) return false; j = j; break;
    case 20: threw = throws([&] { j.front() = v; }); if (i) return false; fs_assert(threw == m.empty(), "front() fails exactly when empty"); if (n) m.front() = v; break;
    case 21: if (i) return false; threw = throws([&] { j.back() = v; }); fs_assert(threw == m.empty(), "back() fails exactly when empty"); if (n) m.back() = v; break;
    case 22: if (i) return false; j.reserve(9); fs_assert(j.capacity() >= 9, "reserve"); break;
    default: { if (i) return false; std::list<Json> o = {Json(v), Json(2u)}; j.swap(o); fs_assert(o.size() == n, "swap exchanges the contents"); size_t k = 0; for (auto &e : o) same1(e, m[k++]); m = {v, 2}; break; }
  }
  return true;
}
FS_ENTRY c15_array() {
  Json j = fly::json_array_type(); std::vector<int> m; if (fs_param("null", 0)) j = nullptr;
  unsigned n = fs_choose((unsigned)fs_param("start", 3) + 1, "start"); for (unsigned i = 0; i < n; i++) { uint8_t v = val(); j.push_back(v); m.push_back(v); }
  for (uint64_t k = fs_param("steps", 2); k; k--) { if (!step(j, m)) return; check(j, m); }
  fs_reach("done");
}
// ---- objects
typedef std::map<std::string, int> M;
static void check(const Json &j, const M &m) {
  fs_assert(j.is_object() && j.size() == m.size() && j.empty() == m.empty(), "size of the object");
  auto w = m.begin(); for (auto it = j.begin(); it != j.end(); ++it, ++w) { fs_assert(w != m.end() && it.key() == w->first, "iteration visits the keys in order"); same1(it.value(), w->second); same1(*it, w->second); } fs_assert(w == m.end(), "iteration visits every element");
  auto r = m.rbegin(); for (auto it = j.rbegin(); it != j.rend(); ++it, ++r) { fs_assert(r != m.rend() && it.key() == r->first, "reverse iteration visits the keys in order"); same1(it.value(), r->second); } fs_assert(r == m.rend(), "reverse iteration visits every element");
  for (int k = 0; k < 4; k++) { std::string key(1, (char)('a' + k)); bool has = m.count(key) != 0; fs_assert(j.contains(key) == has && j.count(key) == (has ? 1u : 0u), "lookup"); auto it = j.find(key); fs_assert((it == j.end()) == !has, "find"); if (has) { same1(it.value(), m.at(key)); same1(j.at(key), m.at(key)); same1(j[key], m.at(key)); } else fs_assert(throws([&] { (void)j.at(key); }) && throws([&] { (void)j[key]; }), "a missing key is reported"); }
  if (!m.empty()) { same1(j.front(), m.begin()->second); same1(j.back(), m.rbegin()->second); }
}
static bool ostep(Json &j, M &m) {
  std::string k(1, (char)('a' + fs_choose(4, "key"))); bool first = k == "a", has = m.count(k) != 0; uint8_t v = val(); bool threw;
  switch (fs_choose(19, "op")) {
    case 0: { Json x = v; auto r = j.insert(k, x); fs_assert(r.second == !has, "insert reports whether it inserted"); m.emplace(k, v); same1(*r.first, m[k]); fs_assert(r.first.key() == k, "insert returns the element"); break; }
    case 1: { auto r = j.insert(k, Json(v)); fs_assert(r.second == !has, "insert reports whether it inserted"); m.emplace(k, v); same1(*r.first, m[k]); break; }
    case 2: { auto r = j.insert_or_assign(k, Json(v)); fs_assert(r.second == !has, "insert_or_assign reports whether it inserted"); m[k] = v; same1(*r.first, v); break; }
    case 3: { auto r = j.emplace(k, v); fs_assert(r.second == !has, "emplace reports whether it inserted"); m.emplace(k, v); same1(*r.first, m[k]); break; }
    case 4: j[k] = v; m[k] = v; break;
    case 5: { Json &r = j[k]; if (!has) m[k] = Null; same1(r, m[k]); break; }
    case 6: threw = throws([&] { j.at(k) = v; }); fs_assert(threw == !has, "at() fails exactly when the key is missing"); if (has) m[k] = v; break;
    case 7: fs_assert(j.erase(k) == (has ? 1u : 0u), "erase reports what it removed"); m.erase(k); break;
    case 8: { threw = throws([&] { auto it = j.erase(j.find(k)); auto w = m.upper_bound(k); fs_assert((it == j.end()) == (w == m.end()), "erase returns the next element"); if (w != m.end()) fs_assert(it.key() == w->first, "erase returns the next element"); }); fs_assert(threw == !has, "erasing fails exactly at the end"); m.erase(k); break; }
    case 9: { auto it = j.erase(j.find(k), j.end()); fs_assert(it == j.end(), "erase returns the end"); m.erase(m.find(k), m.end()); break; }
    case 10: { Json o = {{k, v}, {"b", 5u}}; M mo; mo.emplace(k, v); mo.emplace("b", 5); j.merge(o); m.merge(mo); check(o, mo); break; }
    case 11: { Json o = {{k, v}, {"c", 6u}}; M mo; mo.emplace(k, v); mo.emplace("c", 6); j.merge(std::move(o)); m.merge(mo); break; }
    case 12: { std::map<std::string, Json> o; o.emplace(k, v); o.emplace("d", 7u); M mo; mo.emplace(k, v); mo.emplace("d", 7); j.merge(o); m.merge(mo); fs_assert(o.size() == mo.size(), "merged elements are taken from the source"); for (auto &e : mo) same1(o.at(e.first), e.second); break; }
    case 13: { Json o = {{k, v}, {"c", 6u}}; j.insert(o.cbegin(), o.cend()); m.emplace(k, v); m.emplace("c", 6); break; }
    case 14: if (!first) return false; j.clear(); m.clear(); break;
    case 15: { std::map<std::string, Json> o; o.emplace(k, v); j.swap(o); fs_assert(o.size() == m.size(), "swap exchanges the contents"); for (auto &e : m) same1(o.at(e.first), e.second); m.clear(); m[k] = v; break; }
    case 16: { Json o = {{k, v}}; if (k == "a") j.swap(o); else o.swap(j); check(o, m); m.clear(); m[k] = v; break; }
    case 17: { Json c = j; c[k] = v; check(j, m); Json d = std::move(c); fs_assert(c.is_null(), "a moved-from value is null"); j = std::move(d); m[k] = v; break; }
    default: { std::multimap<std::string, Json> o; o.emplace(k, v); o.emplace("a", 1u); j.merge(std::move(o)); m.emplace(k, v); m.emplace("a", 1); break; }
  }
  return true;
}
FS_ENTRY c15_object() {
  Json j = fly::json_object_type(); M m;
  unsigned set = fs_choose(1u << fs_param("start", 2), "start"); for (unsigned i = 0; i < 4; i++) if (set >> i & 1) { uint8_t v = val(); std::string k(1, (char)('a' + i)); j[k] = v; m[k] = v; }
  for (uint64_t k = fs_param("steps", 2); k; k--) { if (!ostep(j, m)) return; check(j, m); }
  fs_reach("done");
}
// ---- iterators over an array: every jump either lands where it should or is reported
FS_ENTRY c15_walk() {
  Json j = fly::json_array_type(); size_t n = (size_t)fs_param("n", 2); std::vector<int> m; for (size_t i = 0; i < n; i++) { uint8_t v = val(); j.push_back(v); m.push_back(v); }
  unsigned at = fs_choose((unsigned)n + 1, "at"); int64_t d = fs_param("far", 0) ? (int64_t)((fs_param("far", 0) << 56) + fs_u8("offset")) : (int64_t)(int8_t)fs_u8("offset"); fs_assume(d != INT64_MIN); bool back = fs_bool("back"); if (fs_param("const", 0)) { const Json &c = j; auto it = c.begin() + (ptrdiff_t)at, to = it;
    __int128 want = (__int128)at + (back ? -(__int128)d : (__int128)d); bool in = want >= 0 && want <= (__int128)n;
    bool threw = throws([&] { if (back) to -= d; else to += d; }); fs_assert(threw == !in, "a jump fails exactly when it leaves the array"); if (threw) { fs_assert(to == it, "a failed jump leaves the iterator"); fs_reach("left"); return; }
    fs_assert(to - c.begin() == (ptrdiff_t)want, "a jump lands where it should"); fs_reach("landed"); return; }
  auto it = j.begin() + (ptrdiff_t)at; __int128 want = (__int128)at + (back ? -(__int128)d : (__int128)d); bool in = want >= 0 && want <= (__int128)n; auto to = it;
  bool threw = throws([&] { to = back ? it - d : it + d; }); fs_assert(threw == !in, "a jump fails exactly when it leaves the array");
  bool t2 = throws([&] { (void)it[back ? -d : d]; }); fs_assert(t2 == !(in && want < (__int128)n), "indexing fails exactly when there is no element");
  if (threw) { fs_reach("left"); return; }
  ptrdiff_t w = to - j.begin(); fs_assert((__int128)w == want, "a jump lands where it should"); w = (ptrdiff_t)fs_concretize((uint64_t)w);
  fs_assert((to < it) == (w < (ptrdiff_t)at) && (to <= it) == (w <= (ptrdiff_t)at) && (to > it) == (w > (ptrdiff_t)at) && (to >= it) == (w >= (ptrdiff_t)at) && (to == it) == (w == (ptrdiff_t)at), "iterators compare by position");
  bool t3 = throws([&] { (void)*to; }); fs_assert(t3 == (w == (ptrdiff_t)n), "dereferencing fails exactly at the end"); if (!t3) { same1(*to, m[(size_t)w]); same1(it[back ? -d : d], m[(size_t)w]); same1(*to.operator->(), m[(size_t)w]); }
  auto x = to; fs_assert(throws([&] { ++x; }) == (w == (ptrdiff_t)n), "++ fails exactly at the end"); x = to; fs_assert(throws([&] { x--; }) == (w == 0), "-- fails exactly at the beginning");
  Json::const_iterator c = to; fs_assert(c == j.cbegin() + w, "conversion to a constant iterator"); Json other = j; fs_assert(throws([&] { (void)(to == other.begin()); }) && throws([&] { (void)(to - other.begin()); }) && throws([&] { (void)j.erase(other.cbegin()); }) && throws([&] { (void)j.insert(other.cbegin(), Json(1)); }), "iterators of another value are refused");
  Json::iterator none; fs_assert(throws([&] { (void)*none; }) && throws([&] { ++none; }) && throws([&] { (void)(none == to); }), "an empty iterator is refused");
  auto r = Json::reverse_iterator(to); bool t4 = throws([&] { (void)*r; }); fs_assert(t4 == (w == 0), "dereferencing a reverse iterator fails exactly at the end"); if (!t4) same1(*r, m[(size_t)w - 1]);
  check(j, m); fs_reach("landed");
}
// ---- operations on a value they do not apply to
enum { NUL, STR, OBJ, ARR, BOO, INT, UIN, FLO };
static Json scalar(unsigned kind, uint8_t v) { switch (kind) { case NUL: return nullptr; case STR: return Json(std::string(1, (char)('a' + (v & 15)))); case OBJ: return {{"k", v}}; case ARR: return {v}; case BOO: return (v & 1) != 0; case INT: return (int)v; case UIN: return v; default: return 2.5; } }
FS_ENTRY c15_wrong() {
  unsigned kind = fs_choose(8, "kind"); uint8_t v = val(); Json j = scalar(kind, v), was = j; const Json &c = j; bool arr = kind == ARR, obj = kind == OBJ, nul = kind == NUL, str = kind == STR;
  Json oa = {1u, 2u}, oo = {{"x", 1u}}; struct Op { bool applies; std::function<void()> f; };
  Op ops[] = {
    {arr, [&] { (void)j.at((Json::size_type)0); }}, {arr, [&] { (void)c.at((Json::size_type)0); }}, {arr, [&] { (void)c[(Json::size_type)0]; }}, {obj, [&] { (void)j.at("k"); }}, {obj, [&] { (void)c.at("k"); }}, {obj, [&] { (void)c["k"]; }},
    {arr || nul, [&] { (void)j[(Json::size_type)0]; }}, {obj || nul, [&] { (void)j["k"]; }}, {arr || obj, [&] { (void)j.front(); }}, {arr || obj, [&] { (void)c.front(); }}, {arr || obj, [&] { (void)j.back(); }}, {arr || obj, [&] { (void)c.back(); }},
    {arr || obj, [&] { (void)j.begin(); }}, {arr || obj, [&] { (void)c.begin(); }}, {arr || obj, [&] { (void)j.end(); }}, {arr || obj, [&] { (void)c.cend(); }}, {arr || obj, [&] { (void)j.rbegin(); }}, {arr || obj, [&] { (void)c.rend(); }},
    {arr || str, [&] { j.resize(1); }}, {arr || str, [&] { j.reserve(4); }}, {obj, [&] { (void)j.insert("z", Json(1)); }}, {obj, [&] { Json x = 1; (void)j.insert("z", x); }}, {obj, [&] { (void)j.insert_or_assign("z", Json(1)); }}, {obj || nul, [&] { (void)j.emplace("z", 1); }},
    {obj, [&] { j.insert(oo.cbegin(), oo.cend()); }}, {false, [&] { j.insert(oa.cbegin(), oa.cend()); }}, {false, [&] { j.insert(oo.cbegin(), oa.cend()); }}, {arr || nul, [&] { j.push_back(Json(1)); }}, {arr || nul, [&] { Json x = 1; j.push_back(x); }}, {arr || nul, [&] { (void)j.emplace_back(1); }},
    {arr, [&] { j.pop_back(); }}, {obj, [&] { (void)j.erase("k"); }}, {arr, [&] { j.erase((Json::size_type)0); }}, {false, [&] { j.erase(oa.cbegin()); }}, {false, [&] { j.erase(oo.cbegin(), oo.cend()); }},
    {str, [&] { std::string s = "n"; j.swap(s); }}, {str, [&] { std::u16string s = u"n"; j.swap(s); }}, {obj, [&] { std::map<std::string, Json> s; j.swap(s); }}, {arr, [&] { std::vector<Json> s; j.swap(s); }}, {obj || nul, [&] { Json x = oo; j.merge(x); }}, {obj || nul, [&] { j.merge(Json(oo)); }}, {false, [&] { Json x = oa; j.merge(x); }}, {false, [&] { j.merge(Json(5)); }}, {obj || nul, [&] { std::map<std::string, Json> s; j.merge(s); }},
    {obj, [&] { (void)j.count("k"); }}, {obj, [&] { (void)j.find("k"); }}, {obj, [&] { (void)c.find("k"); }}, {obj, [&] { (void)j.contains("k"); }},
    {false, [&] { (void)j.at((Json::size_type)1); }}, {false, [&] { (void)c.at("z"); }}, {false, [&] { j.erase((Json::size_type)1); }}, {true, [&] { (void)j.empty(); (void)j.size(); (void)j.capacity(); j.clear(); }},
  };
  const unsigned n = sizeof ops / sizeof *ops; unsigned k = fs_choose(n, "op"); bool threw = throws(ops[k].f);
  fs_assert(threw == !ops[k].applies, "an operation fails exactly when it does not apply to the value's type");
  if (threw) { fs_assert(j == was && j.is_null() == was.is_null() && j.size() == was.size(), "a failed operation leaves the value unchanged"); fs_reach("refused"); } else fs_reach("applied");
  fs_assert(was.size() == (nul ? 0u : 1u) && was.empty() == nul && was.capacity() >= (nul ? 0u : 1u), "size of a value");
  fs_assert(was.is_object_like() == false && was.is_array() == arr && was.is_object() == obj && was.is_string() == str && was.is_boolean() == (kind == BOO) && was.is_signed_integer() == (kind == INT) && was.is_unsigned_integer() == (kind == UIN) && was.is_float() == (kind == FLO), "type predicates");
}
FS_ENTRY c15_clear() { unsigned kind = fs_choose(8, "kind"); Json j = scalar(kind, val()); j.clear(); switch (kind) { case STR: fs_assert(j.is_string() && j.empty(), "clear"); break; case OBJ: fs_assert(j.is_object() && j.empty(), "clear"); break; case ARR: fs_assert(j.is_array() && j.empty(), "clear"); break; case BOO: fs_assert(j.is_boolean() && j == false, "clear"); break; case INT: fs_assert(j.is_signed_integer() && j == 0, "clear"); break; case UIN: fs_assert(j.is_unsigned_integer() && j == 0u, "clear"); break; case FLO: fs_assert(j.is_float() && j == 0.0, "clear"); break; default: fs_assert(j.is_null(), "clear"); } fs_reach("done"); }
// values built from initializer lists
FS_ENTRY c15_list() {
  uint8_t v = val(), w = val(); Json a = {v, nullptr, w}; check(a, std::vector<int>{v, Null, w}); Json o = {{"b", v}, {"a", w}, {"b", 3u}}; check(o, M{{"a", w}, {"b", v}}); Json p = {{"b", v}, {1u, w}}; fs_assert(p.is_array() && p.size() == 2 && p[0].is_array() && p[0].size() == 2 && p[0][0].is_string() && p[1].size() == 2, "a list that is not all pairs is an array"); same1(p[0][1], v); same1(p[1][0], 1); same1(p[1][1], w);
  std::vector<uint8_t> s = {v, w}; Json b = s; check(b, std::vector<int>{v, w}); std::map<std::string, uint8_t> t = {{"x", v}}; Json c = t; fs_assert(c.is_object() && c.size() == 1, "construction from a map"); same1(c["x"], v); fs_reach("done");
}
