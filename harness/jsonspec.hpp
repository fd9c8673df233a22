// RFC 8259 read independently of the code under test, with the parser's documented extensions.
#pragma once
#include "vh.h"
#include "fly/types/json/json.hpp"
namespace jspec {
enum Type { Null, True, False, Int, Uint, Float, Str, Arr, Obj };
struct Node { Type t = Null; uint64_t num = 0; std::string str; std::vector<Node> kids; std::vector<std::string> keys; };
struct Reader {
  const std::string &s; size_t i = 0; bool comments = false, trailing = false, any = false; bool tooBig = false;
  explicit Reader(const std::string &t, unsigned features = 0) : s(t), comments(features & 1), trailing(features & 2), any(features & 4) {}
  bool at(char c) const { return i < s.size() && s[i] == c; }
  bool blank(char c) const { return ((uint64_t)(c == ' ') | (uint64_t)(c == '\t') | (uint64_t)(c == '\n') | (uint64_t)(c == '\r')) != 0; }
  bool space() { // false on a malformed or forbidden comment
    for (;;) {
      while (i < s.size() && blank(s[i])) i++;
      if (!at('/')) return true;
      if (!comments || i + 1 >= s.size()) return false;
      if (s[i + 1] == '/') { i += 2; while (i < s.size() && s[i] != '\n') i++; if (i < s.size()) i++; }
      else if (s[i + 1] == '*') { i += 2; for (;;) { if (i + 1 >= s.size()) return false; if (s[i] == '*' && s[i + 1] == '/') { i += 2; break; } i++; } }
      else return false;
    }
  }
  static bool dig(char c) { return ((uint64_t)(c >= '0') & (uint64_t)(c <= '9')) != 0; }
  bool hex4(uint32_t &v) {
    if (i + 4 > s.size()) return false;
    uint64_t bad = 0; v = 0;
    for (int k = 0; k < 4; k++) { unsigned c = (unsigned char)s[i++]; uint64_t d = (uint64_t)(c >= '0') & (uint64_t)(c <= '9'), lo = (uint64_t)(c >= 'a') & (uint64_t)(c <= 'f'), up = (uint64_t)(c >= 'A') & (uint64_t)(c <= 'F'); bad |= !(d | lo | up); v = (v << 4) | (uint32_t)fs_ite(d, c - '0', fs_ite(lo, c - 'a' + 10, c - 'A' + 10)); }
    return bad == 0;
  }
  // the characters between the quotes; i is behind the opening quote
  bool chars(std::string &out) {
    for (;;) {
      if (i >= s.size()) return false;
      unsigned char c = (unsigned char)s[i];
      if (c == '"') { i++; return true; }
      if (!one(out)) return false;
    }
  }
  bool one(std::string &out) {
    unsigned char c = (unsigned char)s[i];
    if (c == '\\') {
      if (++i >= s.size()) return false;
      switch (s[i++]) {
        case '"': out += '"'; return true; case '\\': out += '\\'; return true; case '/': out += '/'; return true;
        case 'b': out += '\b'; return true; case 'f': out += '\f'; return true; case 'n': out += '\n'; return true; case 'r': out += '\r'; return true; case 't': out += '\t'; return true;
        case 'u': break; default: return false;
      }
      uint32_t v, w; if (!hex4(v)) return false;
      if (v >= 0xdc00 && v <= 0xdfff) return false;
      if (v >= 0xd800 && v <= 0xdbff) {
        if (i + 6 > s.size() || s[i] != '\\' || s[i + 1] != 'u') return false;
        i += 2; if (!hex4(w) || w < 0xdc00 || w > 0xdfff) return false;
        v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
      }
      out += vh::spec_encode<char>(v); return true;
    }
    if (c < 0x20) return false;
    vh::Dec d = vh::spec_utf8((const unsigned char *)s.data() + i, s.size() - i); if (!d.ok) return false;
    for (size_t k = 0; k < d.len; k++) out += s[i++];
    return true;
  }
  bool number(Node &n) {
    size_t b = i; bool neg = at('-'), real = false; if (neg) i++;
    if (i >= s.size() || !dig(s[i])) return false;
    if (s[i] == '0') i++; else while (i < s.size() && dig(s[i])) i++;
    size_t e = i;
    if (at('.')) { real = true; i++; if (i >= s.size() || !dig(s[i])) return false; while (i < s.size() && dig(s[i])) i++; }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { real = true; i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (i >= s.size() || !dig(s[i])) return false; while (i < s.size() && dig(s[i])) i++; }
    if (real) { n.t = Float; n.str = s.substr(b, i - b); return true; }
    uint64_t v = 0; bool over = false; const uint64_t lim = neg ? (1ull << 63) : ~0ull;
    for (size_t k = b + neg; k < e; k++) { uint64_t d = (uint64_t)(s[k] - '0'); if (v > lim / 10 || v * 10 > lim - d) { over = true; break; } v = v * 10 + d; }
    if (over) { tooBig = true; return false; } // beyond the library's number types
    n.t = neg ? Int : Uint; n.num = neg ? 0 - v : v; return true;
  }
  bool word(const char *w) { size_t k = strlen(w); if (i + k > s.size()) return false; uint64_t d = 0; for (size_t j = 0; j < k; j++) d |= (uint64_t)(unsigned char)(s[i + j] ^ w[j]); if (d) return false; i += k; return true; }
  bool value(Node &n) {
    if (!space() || i >= s.size()) return false;
    switch (s[i]) {
      case '"': i++; n.t = Str; return chars(n.str);
      case 't': n.t = True; return word("true"); case 'f': n.t = False; return word("false"); case 'n': n.t = Null; return word("null");
      case '[': {
        n.t = Arr; i++; if (!space()) return false;
        if (at(']')) { i++; return true; }
        for (;;) {
          n.kids.emplace_back(); if (!value(n.kids.back()) || !space()) return false;
          if (at(']')) { i++; return true; }
          if (!at(',')) return false;
          i++; if (!space()) return false;
          if (at(']') && trailing) { i++; return true; }
        } }
      case '{': {
        n.t = Obj; i++; if (!space()) return false;
        if (at('}')) { i++; return true; }
        for (;;) {
          if (!at('"')) return false;
          i++; std::string key; Node v; if (!chars(key) || !space() || !at(':')) return false;
          i++; if (!value(v) || !space()) return false;
          size_t k = 0; while (k < n.keys.size() && !vh::same(n.keys[k], key)) k++;
          if (k < n.keys.size()) n.kids[k] = v; else { n.keys.push_back(key); n.kids.push_back(v); } // the last of equal names counts
          if (at('}')) { i++; return true; }
          if (!at(',')) return false;
          i++; if (!space()) return false;
          if (at('}') && trailing) { i++; return true; }
        } }
      default: return number(n);
    }
  }
  bool text(Node &n) { if (!value(n) || !space() || i != s.size()) return false; return any || n.t == Arr || n.t == Obj; }
};
// does the value under test hold exactly this?
inline bool match(const Node &n, const fly::Json &j) {
  switch (n.t) {
    case Null: return j.is_null();
    case True: return j.is_boolean() && (bool)j; case False: return j.is_boolean() && !(bool)j;
    case Int: return j.is_signed_integer() && (uint64_t)(int64_t)j == n.num;
    case Uint: return j.is_unsigned_integer() && (uint64_t)j == n.num;
    case Float: return j.is_float();
    case Str: return j.is_string() && vh::same((std::string)j, n.str);
    case Arr: { if (!j.is_array() || j.size() != n.kids.size()) return false; size_t k = 0; for (auto const &x : j) if (!match(n.kids[k++], x)) return false; return true; }
    case Obj: {
      if (!j.is_object() || j.size() != n.kids.size()) return false;
      for (auto it = j.begin(); it != j.end(); ++it) { size_t k = 0; while (k < n.keys.size() && !vh::same(n.keys[k], it.key())) k++; if (k == n.keys.size() || !match(n.kids[k], *it)) return false; }
      return true; }
  }
  return false;
}
} // namespace jspec
