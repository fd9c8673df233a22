// C17: the INI parser.
#include "jsonspec.hpp"
#include "fly/parser/ini_parser.hpp"
using fly::parser::IniParser; using fly::Json;
namespace {
bool blank(char c) { return ((uint64_t)(c == ' ') | (uint64_t)((unsigned char)c - 9u < 5)) != 0; }
std::string trim(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && blank(s[a])) a++; while (b > a && blank(s[b - 1])) b--; return s.substr(a, b - a); }
bool quote(char c) { return ((uint64_t)(c == '\'') | (uint64_t)(c == '"')) != 0; }
bool unquote(std::string &s, char q) { // false: a quote at one end only
  if (s.empty()) return true;
  bool a = s[0] == q, b = s[s.size() - 1] == q;
  if (a != b || (a && s.size() == 1)) return false;
  if (a) s = s.substr(1, s.size() - 2);
  return true;
}
bool text(const std::string &raw, std::string &out) { jspec::Reader r(raw); while (r.i < raw.size()) if (raw[r.i] == '"' || !r.one(out)) return false; return true; }
struct Pair { std::string k, v; };
struct Section { std::string name; std::vector<Pair> pairs; };
bool spec(const std::string &t, std::vector<Section> &out) {
  size_t cur = 0, i = 0;
  while (i < t.size()) {
    size_t e = i; while (e < t.size() && t[e] != '\n') e++;
    std::string l = trim(t.substr(i, e - i)); i = e + 1;
    if (l.empty() || l[0] == ';') continue;
    bool open = l[0] == '[', close = l[l.size() - 1] == ']';
    if (open != close) return false;
    if (open) {
      std::string n = trim(l.substr(1, l.size() - 2)), name;
      if (n.size() && (quote(n[0]) || quote(n[n.size() - 1]))) return false;
      if (!text(n, name)) return false;
      for (cur = 0; cur < out.size() && !vh::same(out[cur].name, name); cur++) {}
      if (cur == out.size()) out.push_back({name, {}}); else out[cur].pairs.clear();
      continue;
    }
    if (out.empty()) return false;
    size_t q = 0; while (q < l.size() && l[q] != '=') q++;
    if (q == l.size()) return false;
    std::string n = trim(l.substr(0, q)), v = trim(l.substr(q + 1)), name, value;
    if (n.empty() || v.empty() || quote(n[0]) || quote(n[n.size() - 1])) return false;
    if (!unquote(v, '\'') || !unquote(v, '"') || !text(n, name) || !text(v, value)) return false;
    auto &p = out[cur].pairs; size_t k = 0; while (k < p.size() && !vh::same(p[k].k, name)) k++;
    if (k == p.size()) p.push_back({name, value}); else p[k].v = value;
  }
  return !out.empty();
}
bool match(const std::vector<Section> &w, const Json &j) {
  if (!j.is_object() || j.size() != w.size()) return false;
  for (auto s = j.begin(); s != j.end(); ++s) {
    size_t k = 0; while (k < w.size() && !vh::same(w[k].name, s.key())) k++;
    if (k == w.size() || !s->is_object() || s->size() != w[k].pairs.size()) return false;
    for (auto p = s->begin(); p != s->end(); ++p) { auto &q = w[k].pairs; size_t i = 0; while (i < q.size() && !vh::same(q[i].k, p.key())) i++; if (i == q.size() || !p->is_string() || !vh::same((std::string)*p, q[i].v)) return false; }
  }
  return true;
}
void check(IniParser &p, const std::string &t, bool file) {
  std::vector<Section> w; bool want = spec(t, w); std::optional<Json> got;
  try { if (file) { std::string f = std::string(vf_root()) + "/c17.ini"; vf_put(f.c_str(), t.data(), t.size()); got = p.parse_file(f); } else got = p.parse_string(t); } catch (...) { fs_assert(false, "parsing never throws"); }
  fs_observe(got.has_value());
  if (!want) { fs_reach("rejected"); fs_assert(!got, "a text that is not acceptable INI is rejected"); return; }
  fs_reach("accepted"); fs_assert(got.has_value(), "acceptable INI is accepted"); fs_assert(match(w, *got), "the sections and assignments are exactly those of the text");
}
const char *shapes[] = { "[?]", "[??]", "[a]\nk?v", "[a]\n?=?", "[a]\nk=??", "[a]\nk=\"??\"", "[a]\nk='??'", "[a]\nk=?v?", "[a]\n?k?=v", "?\n[a]", "[a]\n?", "[a]\n??", "[a]?\nk=v", "?[a]\nk=v", // 0-13
  "[a]\nk=1\n[?]\nk=2", "[a]\nk=1\n?=2", "[a]\n[b]\n[a]\nk=?", "[a]\nk=v?\n?=w", "[a]\n?k=1\n[b]\nk=2", "[a]\nk=\\u00$$", "[a]\nk=\\?", "[\\u00$$]\nk=v", "[a]\n\\?=v", "[a]\nk=a=?", "[a]\n\tk =\t? \t", // 14-24
  "[ ?\t]\n\n", "[a]\nk=1\n[a]?", "[a]\nk=1\n[a]\n?", "[a]\nk=\xc3?", "[\xe2??]", "[a]\n\xf0\x9f??=v", "k=?\n[a]", "[a]\n;?\nk=v", "[a]\nk=;?", "[a?\r\nk=v\r\n", "[a]\nk=\"\\??\"", "[a]\nk='\"?\"'", "[a]\nk=[?]", "[a]\nk=?]" }; // 25-38
} // namespace
FS_ENTRY c17_shape() { IniParser p; check(p, vh::pattern(shapes[fs_param("form", 0)]), fs_param("file", 0)); }
FS_ENTRY c17_bytes() { IniParser p; check(p, vh::bytes((size_t)fs_param("n", 2), "t"), false); }
FS_ENTRY c17_lines() { IniParser p; check(p, "[a]\n" + vh::alphabet((size_t)fs_param("n", 4), fs_param("form", 0) ? "[]\na;k" : "k='\"\n ", "t"), false); }
// a parser can be used again, after success as well as after failure
FS_ENTRY c17_again() { IniParser p; check(p, vh::pattern("[a]\nk=?"), false); check(p, vh::pattern("[b?\nj=1"), false); check(p, "[c]\nx=y", false); }
